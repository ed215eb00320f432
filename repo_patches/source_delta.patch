From 5216e83d3b7c5010d9d297a1633b49a0889508b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:17 +0000
Subject: [PATCH 01/21] fix: treat the last minute before a break as open

The minute grid contains the break start minute, so is_open_on_minute and
minute_to_session_label(direction='none') must accept it.
---
 trading_calendars/trading_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 40242a7..25bd452 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -426,7 +426,7 @@ class TradingCalendar(with_metaclass(ABCMeta)):
                 self.market_break_starts_nanos[open_idx - 1]
             break_end_on_open_dt = self.market_break_ends_nanos[open_idx - 1]
             # NaT comparisions will result in False
-            if break_start_on_open_dt <= dt < break_end_on_open_dt:
+            if break_start_on_open_dt < dt < break_end_on_open_dt:
                 # we're in the middle of a break
                 return False
             else:
-- 
2.43.0


From 54d9f0600d100a6adba8f560da7baf663eaea946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:17 +0000
Subject: [PATCH 02/21] fix: handle minutes outside the calendar in 'previous'
 session lookup

A minute before the first open wrapped around to the last session, and a
minute after the last close raised IndexError although a previous session
exists.
---
 trading_calendars/trading_calendar.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 25bd452..b3ce89f 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -976,6 +976,13 @@ class TradingCalendar(with_metaclass(ABCMeta)):
                 return self._minute_to_session_label_cache[1]
 
         idx = searchsorted(self.market_closes_nanos, dt)
+
+        if direction == "previous" and \
+                not self.is_open_on_minute(dt, ignore_breaks=True):
+            if idx == 0:
+                raise ValueError("There is no session before the given dt!")
+            return self.schedule.index[idx - 1]
+
         current_or_next_session = self.schedule.index[idx]
 
         if direction == "next":
@@ -984,8 +991,7 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             )
             return current_or_next_session
         elif direction == "previous":
-            if not self.is_open_on_minute(dt, ignore_breaks=True):
-                return self.schedule.index[idx - 1]
+            pass
         elif direction == "none":
             if not self.is_open_on_minute(dt):
                 # if the exchange is closed, blow up
-- 
2.43.0


From 14cc0493382e8568e21924e26112278f68047d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:17 +0000
Subject: [PATCH 03/21] fix: minutes_in_range with an end after the last minute

The lookup indexed one past the end of the minute array and raised
IndexError instead of returning the minutes up to the last one.
---
 trading_calendars/trading_calendar.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index b3ce89f..ef82a82 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -790,12 +790,10 @@ class TradingCalendar(with_metaclass(ABCMeta)):
         start_idx = searchsorted(self._trading_minutes_nanos,
                                  start_minute.value)
 
+        # if the end minute is a market minute, include it
         end_idx = searchsorted(self._trading_minutes_nanos,
-                               end_minute.value)
-
-        if end_minute.value == self._trading_minutes_nanos[end_idx]:
-            # if the end minute is a market minute, increase by 1
-            end_idx += 1
+                               end_minute.value,
+                               side='right')
 
         return self.all_minutes[start_idx:end_idx]
 
-- 
2.43.0


From 8f4621cb3153618c2a2f5a28de970fe20c2ae549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:17 +0000
Subject: [PATCH 04/21] fix: cut backward minute windows at the first minute

A negative slice start made a window reaching before the first minute
empty.
---
 trading_calendars/trading_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index ef82a82..cffa491 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -674,7 +674,7 @@ class TradingCalendar(with_metaclass(ABCMeta)):
         end_idx = start_idx + count
 
         if start_idx > end_idx:
-            return self.all_minutes[(end_idx + 1):(start_idx + 1)]
+            return self.all_minutes[max(0, end_idx + 1):(start_idx + 1)]
         else:
             return self.all_minutes[start_idx:end_idx]
 
-- 
2.43.0


From 61b186c2ae13323633b33f9bcd8ad358abf539a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:17 +0000
Subject: [PATCH 05/21] fix: count both end points of each half of a session
 with a break

minutes_count_for_sessions_in_range was one short per session with a
break compared with the minutes the calendar enumerates.
---
 trading_calendars/trading_calendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index cffa491..bf9dade 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -280,7 +280,9 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             self.schedule.break_end - self.schedule.break_start
         ).fillna(pd.Timedelta(seconds=0))
         diff = (close_to_open_diff - break_diff).astype("timedelta64[m]")
-        return diff + 1
+        # The open and the break end each start a run of minutes that includes
+        # both of its end points.
+        return diff + 1 + self.schedule.break_start.notnull()
 
     def minutes_count_for_sessions_in_range(self, start_session, end_session):
         """
-- 
2.43.0


From a8bda2971acf827a6b37fdf142713c25ac3d167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:04 +0000
Subject: [PATCH 06/21] fix: fill in the message of the mismatched breaks error

---
 trading_calendars/trading_calendar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index bf9dade..6315552 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -1155,9 +1155,10 @@ def _check_breaks_match(market_break_starts_nanos, market_break_ends_nanos):
             %s
             Break ends:
             %s
-            """,
-            market_break_starts_nanos[~nats_match],
-            market_break_ends_nanos[~nats_match]
+            """ % (
+                market_break_starts_nanos[~nats_match],
+                market_break_ends_nanos[~nats_match],
+            )
         )
 
 
-- 
2.43.0


From 3e08c1a91dc4a231d4302b174434f435eb312729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:04 +0000
Subject: [PATCH 07/21] fix: copy the initial calendars of a dispatcher

Two dispatchers created from the same mapping shared registrations.
---
 trading_calendars/calendar_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading_calendars/calendar_utils.py b/trading_calendars/calendar_utils.py
index 79988e1..a742f36 100644
--- a/trading_calendars/calendar_utils.py
+++ b/trading_calendars/calendar_utils.py
@@ -163,7 +163,7 @@ class TradingCalendarDispatcher(object):
         Calendar name aliases.
     """
     def __init__(self, calendars, calendar_factories, aliases):
-        self._calendars = calendars
+        self._calendars = dict(calendars)
         self._calendar_factories = dict(calendar_factories)
         self._aliases = dict(aliases)
 
-- 
2.43.0


From a1b8acad875e5e6a912038cfb3d2015f5b34ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:04 +0000
Subject: [PATCH 08/21] fix: restore the replaced name when a forced alias
 would form a cycle

The old meaning of the name was dropped before the new alias was refused.
---
 trading_calendars/calendar_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trading_calendars/calendar_utils.py b/trading_calendars/calendar_utils.py
index a742f36..f7f315c 100644
--- a/trading_calendars/calendar_utils.py
+++ b/trading_calendars/calendar_utils.py
@@ -309,7 +309,17 @@ class TradingCalendarDispatcher(object):
             If False, name collisions will raise an exception.
             Default is False.
         """
+        replaced = []
         if force:
+            replaced = [
+                (registry, registry[alias])
+                for registry in (
+                    self._calendars,
+                    self._calendar_factories,
+                    self._aliases,
+                )
+                if alias in registry
+            ]
             self.deregister_calendar(alias)
 
         if self.has_calendar(alias):
@@ -323,6 +333,8 @@ class TradingCalendarDispatcher(object):
             self.resolve_alias(alias)
         except CyclicCalendarAlias:
             del self._aliases[alias]
+            for registry, value in replaced:
+                registry[alias] = value
             raise
 
     def resolve_alias(self, name):
-- 
2.43.0


From fd577a1e964844a6da7e65077e11656a3d1d88c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:04 +0000
Subject: [PATCH 09/21] fix: do not modify the shared mid-autumn dates in the
 XHKG calendar

Reading adhoc_holidays shifted dates of the module-level table in place.
---
 trading_calendars/exchange_calendar_xhkg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trading_calendars/exchange_calendar_xhkg.py b/trading_calendars/exchange_calendar_xhkg.py
index 27a7e9a..b031e41 100644
--- a/trading_calendars/exchange_calendar_xhkg.py
+++ b/trading_calendars/exchange_calendar_xhkg.py
@@ -386,7 +386,8 @@ class XHKGExchangeCalendar(TradingCalendar):
         # conflicts with national day, then national day is observed on the
         # second, though we don't encode that in the regular holiday, so
         # instead we pretend that the mid autumn festival would be delayed.
-        mid_autumn_festival = day_after_mid_autumn_festival_dates.values
+        mid_autumn_festival = \
+            day_after_mid_autumn_festival_dates.values.copy()
         mid_autumn_festival[
             (day_after_mid_autumn_festival_dates.month == 10) &
             (day_after_mid_autumn_festival_dates.day == 1)
-- 
2.43.0


From c8317f828ac81d37d61180b0ab2e8b8373932361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:51 +0000
Subject: [PATCH 10/21] fix: report CMES as the name of the CMES calendar

The calendar registered as CMES called itself CME.
---
 trading_calendars/exchange_calendar_cmes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading_calendars/exchange_calendar_cmes.py b/trading_calendars/exchange_calendar_cmes.py
index ebcb039..69cc6f5 100644
--- a/trading_calendars/exchange_calendar_cmes.py
+++ b/trading_calendars/exchange_calendar_cmes.py
@@ -52,7 +52,7 @@ class CMESExchangeCalendar(TradingCalendar):
     - Good Friday
     - Christmas
     """
-    name = 'CME'
+    name = 'CMES'
 
     tz = timezone('America/Chicago')
 
-- 
2.43.0


From f5621de2914b22bdd62122bed6ad5d3034811867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:56 +0000
Subject: [PATCH 11/21] fix: XIST has no early close on April 23 2029, a
 holiday

The day is the eve of Eid al-Adha and also National Sovereignty Day, so
building the calendar over it failed.
---
 trading_calendars/exchange_calendar_xist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trading_calendars/exchange_calendar_xist.py b/trading_calendars/exchange_calendar_xist.py
index d8ae1f5..210e53e 100644
--- a/trading_calendars/exchange_calendar_xist.py
+++ b/trading_calendars/exchange_calendar_xist.py
@@ -195,6 +195,8 @@ class XISTExchangeCalendar(TradingCalendar):
             pd.Timestamp('1994-05-19'),
             # Day before Eid al Fitr observed as holiday in 2003
             pd.Timestamp('2003-11-24'),
+            # National Sovereignty and Children's Day on April 23
+            pd.Timestamp('2029-04-23'),
         ]
 
         early_close_days = EidAlFitrHalfDay + EidAlAdhaHalfDay
-- 
2.43.0


From 46b8f72e0deaf6894e5eec26c4b5c9d7cff599cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:12 +0000
Subject: [PATCH 12/21] fix: XKLS has no early closes on holidays in 1984,
 2029, 2031 and 2049

Building the calendar over any of these days failed.
---
 trading_calendars/exchange_calendar_xkls.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trading_calendars/exchange_calendar_xkls.py b/trading_calendars/exchange_calendar_xkls.py
index 1f3c36f..a6bed24 100644
--- a/trading_calendars/exchange_calendar_xkls.py
+++ b/trading_calendars/exchange_calendar_xkls.py
@@ -126,6 +126,9 @@ class XKLSExchangeCalendar(TradingCalendar):
         early_close_days = ChineseNewYearsHalfDay + EidAlFitrHalfDay
 
         collisions = [
+            # Federal Territory Day on February 1
+            pd.Timestamp('1984-02-01'),
+            pd.Timestamp('2049-02-01'),
             # Chinese New Year's Eve was a holiday until 2005
             pd.Timestamp('1997-02-07'),
             pd.Timestamp('1998-01-28'),
@@ -134,6 +137,9 @@ class XKLSExchangeCalendar(TradingCalendar):
             pd.Timestamp('2004-01-21'),
             # Eid al-Fitr Eve was a holiday in 2003
             pd.Timestamp('2003-11-24'),
+            # Eid al-Fitr Eve is Chinese New Year's Day
+            pd.Timestamp('2029-02-13'),
+            pd.Timestamp('2031-01-23'),
         ]
 
         early_close_days = list(set(early_close_days) - set(collisions))
-- 
2.43.0


From 799ae478a080b9e0ec2855bd33ce8bfcd84bb181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:09 +0000
Subject: [PATCH 13/21] fix: correct the lunisolar festival dates of 2034

A leap month precedes the Chinese year 2034, so the festivals after the
new year were listed a month early.
---
 trading_calendars/lunisolar_holidays.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading_calendars/lunisolar_holidays.py b/trading_calendars/lunisolar_holidays.py
index f962dd1..1f800c0 100644
--- a/trading_calendars/lunisolar_holidays.py
+++ b/trading_calendars/lunisolar_holidays.py
@@ -297,7 +297,7 @@ chinese_buddhas_birthday_dates = pd.to_datetime(
         "2031-05-28",
         "2032-05-16",
         "2033-05-06",
-        "2034-04-26",
+        "2034-05-25",
         "2035-05-15",
         "2036-05-03",
         "2037-05-22",
@@ -398,7 +398,7 @@ dragon_boat_festival_dates = pd.to_datetime(
         "2031-06-24",
         "2032-06-12",
         "2033-06-01",
-        "2034-05-22",
+        "2034-06-20",
         "2035-06-10",
         "2036-05-30",
         "2037-06-18",
@@ -500,7 +500,7 @@ mid_autumn_festival_dates = pd.to_datetime(
         "2031-10-01",
         "2032-09-19",
         "2033-09-08",
-        "2034-08-28",
+        "2034-09-27",
         "2035-09-16",
         "2036-10-04",
         "2037-09-24",
@@ -601,7 +601,7 @@ double_ninth_festival_dates = pd.to_datetime(
         "2031-10-24",
         "2032-10-12",
         "2033-10-01",
-        "2034-09-21",
+        "2034-10-20",
         "2035-10-09",
         "2036-10-27",
         "2037-10-17",
-- 
2.43.0


From 55e1c352b5e4fa450275fccf445dd01abf687be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:09 +0000
Subject: [PATCH 14/21] fix: list the dragon boat festival of 1987 on its own
 date

May 31 was a Sunday; the Monday observed in Hong Kong is derived from it.
---
 trading_calendars/lunisolar_holidays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading_calendars/lunisolar_holidays.py b/trading_calendars/lunisolar_holidays.py
index 1f800c0..f3a921b 100644
--- a/trading_calendars/lunisolar_holidays.py
+++ b/trading_calendars/lunisolar_holidays.py
@@ -351,7 +351,7 @@ dragon_boat_festival_dates = pd.to_datetime(
         "1984-06-04",
         "1985-06-22",
         "1986-06-11",
-        "1987-06-01",
+        "1987-05-31",
         "1988-06-18",
         "1989-06-08",
         "1990-05-28",
-- 
2.43.0


From a1606c0d364f533e7328b8395bbccf57ccde90d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:49 +0000
Subject: [PATCH 15/21] fix: move Memorial Day from Sunday to Monday in Israel

When the fourth of Iyar is a Sunday (2024, 2028, 2031 and so on) Memorial
Day and Independence Day are held a day later. The rule looked at Saturday
instead, a weekday that date never falls on.
---
 trading_calendars/tase_holidays.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/tase_holidays.py b/trading_calendars/tase_holidays.py
index a591b65..5da5c62 100644
--- a/trading_calendars/tase_holidays.py
+++ b/trading_calendars/tase_holidays.py
@@ -147,8 +147,9 @@ def memorial_day(year):
         # Falls on a Friday, so Independence Day falls on the Saturday.
         # Moved down by two days.
         return d - 2
-    elif d.weekday() == 7:
-        # Falls on a Saturday, therefore moved up by one day.
+    elif d.weekday() == 1 and year >= 2004:
+        # Falls on a Sunday, so its eve falls on the Sabbath. Moved up by one
+        # day since 2004.
         return d + 1
     else:
         return d
-- 
2.43.0


From a15cccdfb80f98b65ae63d21520ece6928bf9b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:10 +0000
Subject: [PATCH 16/21] fix: list the Prophet's birthday of January 2015 in
 Malaysia

The table skipped an Islamic year. The day was a Saturday, so no session
changes.
---
 trading_calendars/xkls_holidays.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trading_calendars/xkls_holidays.py b/trading_calendars/xkls_holidays.py
index c694895..d4fd83b 100644
--- a/trading_calendars/xkls_holidays.py
+++ b/trading_calendars/xkls_holidays.py
@@ -170,6 +170,7 @@ muhammad_birthday = pd.to_datetime([
     '2012-02-06',
     '2013-01-24',
     '2014-01-14',
+    '2015-01-03',
     '2015-12-24',
     '2016-12-11',
     '2017-12-01',
-- 
2.43.0


From 04ad6592f551407d10dbbff46f55bc8c1daf4ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:05 +0000
Subject: [PATCH 17/21] fix: Extend the Athens Orthodox Easter holidays through
 2049

The dates relative to Orthodox Easter were only generated through 2020, so
later Ash Mondays, Good Fridays, Easter Mondays and Whit Mondays were sessions.
---
 trading_calendars/exchange_calendar_asex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading_calendars/exchange_calendar_asex.py b/trading_calendars/exchange_calendar_asex.py
index a51c687..0443b35 100644
--- a/trading_calendars/exchange_calendar_asex.py
+++ b/trading_calendars/exchange_calendar_asex.py
@@ -38,7 +38,7 @@ from .trading_calendar import (
 )
 
 
-def orthodox_easter(start_date='1980', end_date='2021'):
+def orthodox_easter(start_date='1980', end_date='2050'):
     """
     ASEX observes Orthodox Easter, and has many holidays
     that are relative to Orthodox Easter.  This function gives a
-- 
2.43.0


From fc89bbd3b019421a5ea4e38bc57d4a046936eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:25 +0000
Subject: [PATCH 18/21] fix: Extend the Tokyo equinox and Silver Week holidays
 through 2049

The lists stopped in 2021, so later equinoxes were treated as sessions.
---
 trading_calendars/xtks_holidays.py | 61 ++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/trading_calendars/xtks_holidays.py b/trading_calendars/xtks_holidays.py
index 2e9297d..a8e30d9 100644
--- a/trading_calendars/xtks_holidays.py
+++ b/trading_calendars/xtks_holidays.py
@@ -89,6 +89,34 @@ VernalEquinoxes = [
     Timestamp('2019-03-21'),
     Timestamp('2020-03-20'),
     Timestamp('2021-03-20'),
+    Timestamp('2022-03-21'),
+    Timestamp('2023-03-21'),
+    Timestamp('2024-03-20'),
+    Timestamp('2025-03-20'),
+    Timestamp('2026-03-20'),
+    Timestamp('2027-03-22'),
+    Timestamp('2028-03-20'),
+    Timestamp('2029-03-20'),
+    Timestamp('2030-03-20'),
+    Timestamp('2031-03-21'),
+    Timestamp('2032-03-20'),
+    Timestamp('2033-03-21'),
+    Timestamp('2034-03-20'),
+    Timestamp('2035-03-21'),
+    Timestamp('2036-03-20'),
+    Timestamp('2037-03-20'),
+    Timestamp('2038-03-20'),
+    Timestamp('2039-03-21'),
+    Timestamp('2040-03-20'),
+    Timestamp('2041-03-20'),
+    Timestamp('2042-03-20'),
+    Timestamp('2043-03-21'),
+    Timestamp('2044-03-21'),
+    Timestamp('2045-03-20'),
+    Timestamp('2046-03-20'),
+    Timestamp('2047-03-21'),
+    Timestamp('2048-03-20'),
+    Timestamp('2049-03-20'),
 ]
 
 # The Golden Week holidays (late April - early May) are listed in reverse
@@ -258,6 +286,34 @@ AutumnalEquinoxes = [
     Timestamp('2019-09-23'),
     Timestamp('2020-09-22'),
     Timestamp('2021-09-23'),
+    Timestamp('2022-09-23'),
+    Timestamp('2023-09-23'),
+    Timestamp('2024-09-23'),
+    Timestamp('2025-09-23'),
+    Timestamp('2026-09-23'),
+    Timestamp('2027-09-23'),
+    Timestamp('2028-09-22'),
+    Timestamp('2029-09-24'),
+    Timestamp('2030-09-23'),
+    Timestamp('2031-09-23'),
+    Timestamp('2032-09-22'),
+    Timestamp('2033-09-23'),
+    Timestamp('2034-09-23'),
+    Timestamp('2035-09-24'),
+    Timestamp('2036-09-22'),
+    Timestamp('2037-09-23'),
+    Timestamp('2038-09-23'),
+    Timestamp('2039-09-23'),
+    Timestamp('2040-09-22'),
+    Timestamp('2041-09-23'),
+    Timestamp('2042-09-23'),
+    Timestamp('2043-09-23'),
+    Timestamp('2044-09-22'),
+    Timestamp('2045-09-22'),
+    Timestamp('2046-09-24'),
+    Timestamp('2047-09-23'),
+    Timestamp('2048-09-22'),
+    Timestamp('2049-09-22'),
 ]
 
 # If the Autumnal Equinox falls on a Wednesday, the Tuesday before
@@ -267,6 +323,11 @@ AutumnalEquinoxes = [
 CitizensHolidaySilverWeek = [
     Timestamp('2009-09-22'),
     Timestamp('2015-09-22'),
+    Timestamp('2026-09-22'),
+    Timestamp('2032-09-21'),
+    Timestamp('2037-09-22'),
+    Timestamp('2043-09-22'),
+    Timestamp('2049-09-21'),
 ]
 
 RespectForTheAgedDayThrough2002 = Holiday(
-- 
2.43.0


From d681b16419fedbdfbfad36c9096051a2c54f8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:05 +0000
Subject: [PATCH 19/21] fix: Reject a tcal month outside 1-12 with a message

Month 0 and 13 ended in a traceback from the date parser.
---
 etc/tcal                  | 2 ++
 trading_calendars/tcal.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/etc/tcal b/etc/tcal
index 7e576de..41d4019 100755
--- a/etc/tcal
+++ b/etc/tcal
@@ -130,6 +130,8 @@ def parse_args(argv):
         month = None
     elif len(argv) == 4:
         month = _int_arg(argv[2], 'MONTH')
+        if not 1 <= month <= 12:
+            error('MONTH must be between 1 and 12, got: %r' % month)
         year = _int_arg(argv[3], 'YEAR')
     else:
         error(usage)
diff --git a/trading_calendars/tcal.py b/trading_calendars/tcal.py
index effbf6b..93204e0 100644
--- a/trading_calendars/tcal.py
+++ b/trading_calendars/tcal.py
@@ -129,6 +129,8 @@ def parse_args(argv):
         month = None
     elif len(argv) == 4:
         month = _int_arg(argv[2], 'MONTH')
+        if not 1 <= month <= 12:
+            error('MONTH must be between 1 and 12, got: %r' % month)
         year = _int_arg(argv[3], 'YEAR')
     else:
         error(usage)
-- 
2.43.0


From e61895e010f2e2df84358f54c55d2c3dade78b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:05 +0000
Subject: [PATCH 20/21] fix: Drop an argument date_range does not take from
 etc/tcal

Every use of the script failed with a TypeError.
---
 etc/tcal | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/etc/tcal b/etc/tcal
index 41d4019..cd741fa 100755
--- a/etc/tcal
+++ b/etc/tcal
@@ -43,7 +43,7 @@ def _render_month(calendar, year, month, print_year):
     else:
         end = '{year}-{month}'.format(year=year, month=month + 1)
 
-    days = pd.date_range(start, end, closed='left', utc=True)
+    days = pd.date_range(start, end, closed='left')
 
     title = months[month - 1]
     if print_year:
-- 
2.43.0


From 9a6d5de9c14a2e12d5b9d09c10f3a6f75c3f642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:09 +0000
Subject: [PATCH 21/21] fix: report bad minutes at the ends of the calendar
 with ValueError

minute_index_to_session_labels built its error message from the sessions
around the bad minute. Before the first open and after the last close one
of them does not exist, so the message named the wrong session or ended in
an IndexError.
---
 trading_calendars/trading_calendar.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 6315552..d480908 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -1039,16 +1039,21 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             example = index[bad_ix]
 
             prev_day = prev_opens[bad_ix]
-            prev_open, prev_close = (
-                self.schedule.iloc[prev_day].loc[
-                    ['market_open', 'market_close']
-                ]
-            )
-            next_open, next_close = (
-                self.schedule.iloc[prev_day + 1].loc[
-                    ['market_open', 'market_close']
-                ]
-            )
+            # There is no previous session before the first open, and no next
+            # session after the last close.
+            prev_open = prev_close = next_open = next_close = None
+            if prev_day >= 0:
+                prev_open, prev_close = (
+                    self.schedule.iloc[prev_day].loc[
+                        ['market_open', 'market_close']
+                    ]
+                )
+            if prev_day + 1 < len(self.schedule):
+                next_open, next_close = (
+                    self.schedule.iloc[prev_day + 1].loc[
+                        ['market_open', 'market_close']
+                    ]
+                )
 
             raise ValueError(
                 "{num} non-market minutes in minute_index_to_session_labels:\n"
-- 
2.43.0

