import json
import os
TC='trading_calendars/trading_calendar.py'; CH='trading_calendars/calendar_helpers.py'; CU='trading_calendars/calendar_utils.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p('C01','Next/previous open, close and minute lookups are strict and never wrap',
 "For any instant, asking a calendar for the next (previous) open, close or trading minute returns the earliest (latest) such instant strictly after (before) it, as a UTC timestamp. When the calendar holds no such instant, the query raises an error; it never answers with an instant from the other end of the calendar or on the wrong side of the question.",
 ['inputs','configurations'],'Every calendar (any number of sessions, with or without breaks) and every instant: on, between, before the first and after the last divider, aligned to a minute or not.',
 'The base suite probes a handful of minutes around each recorded session of fixed CSV ranges and skips the first and last two sessions; instants off the minute grid, and everything at or beyond either end of the calendar, are never asked.',
 [TC,CH],[('next_divider_idx / previous_divider_idx searchsorted sides',CH),('next_open, next_close, previous_open, previous_close, next_minute, previous_minute',TC)],
 [('market_opens_nanos, market_closes_nanos, _trading_minutes_nanos','sorted divider arrays',TC)],['return value or exception of the six query methods'])
p('C02','Stepping between session labels visits every session exactly once',
 "The next (previous) session of a session label is its immediate neighbour in the calendar, so stepping visits every session once and in order. Stepping past the last or before the first session raises ValueError, and a label that is not a session is rejected rather than rounded.",
 ['inputs','configurations'],'Every calendar and every label: first, interior, last, and dates that are not sessions.',
 'Tests step through the interior sessions of each CSV and the two ends, never from a date that is not a session, and only for the calendars and ranges recorded there.',
 [TC],[('next_session_label, previous_session_label',TC)],[('schedule.index','ordered session labels',TC)],['return value or exception of the two methods'])
p('C03','A calendar is open exactly on the minutes its schedule says',
 "An instant is reported open exactly when it lies between the open and the close of one session, both ends included, and is not strictly inside that session's break; a caller that ignores breaks gets the answer for the unbroken session. Timestamps and nanosecond integers get the same answer, and instants before the first open or after the last close are closed.",
 ['inputs','configurations'],'Every schedule (sessions with and without a break, any mix) and every instant relative to it.',
 'Only the open, the close and the minute on either side of them are tested for most calendars; one break minute is tested for one calendar; break boundaries, mixed break/no-break neighbours, off-grid instants and the span ends are not.',
 [TC],[('is_open_on_minute',TC)],[('market_opens_nanos, market_break_starts_nanos, market_break_ends_nanos, market_closes_nanos','per-session boundaries; int64 NaT where there is no break',TC)],['return value of is_open_on_minute'])
p('C04','A minute is attributed to the right session in every direction mode',
 "A minute inside a session (its break included for the next/previous modes) maps to that session; outside a session the mode decides: the following session, the preceding session, or ValueError, and an unknown mode is a ValueError. When the session asked for does not exist the lookup raises instead of naming another session, and earlier lookups never change the answer to a later one.",
 ['inputs','histories'],'Every schedule, every instant, every direction, and every preceding sequence of lookups on the same calendar.',
 'Tests query interior sessions only and one three-call sequence; they never look before the first or after the last session, never inside a break with mode none at its edges, and never with an arbitrary cache content.',
 [TC],[('minute_to_session_label with its one-entry cache',TC)],[('_minute_to_session_label_cache','last (minute, session) answered in next mode',TC)],['return value or exception of minute_to_session_label'])
p('C05','Bulk minute-to-session mapping agrees with the one-minute lookup',
 "Mapping an ordered index of minutes to session labels gives, element by element, the session whose open-to-close span contains the minute. If any element lies outside every session, or the index is not ordered, the whole call raises and no labels are returned.",
 ['inputs','configurations'],'Every schedule and every vector of instants, mixing minutes inside and outside sessions.',
 'Tests map all-valid minute vectors of one quarter per calendar and three invalid minutes of one exchange; unordered input and minutes beyond the ends are never passed.',
 [TC],[('minute_index_to_session_labels',TC)],[('_opens, _closes, schedule.index','boundaries searched',TC)],['return value or exception of minute_index_to_session_labels'])
p('C06','Range queries return everything in the closed range and nothing else',
 "Asking for the sessions, trading minutes, session opens or session closes between two bounds returns, in order, exactly the calendar entries that are on or between the bounds, whether or not the bounds themselves are entries and wherever they lie relative to the calendar's span. Per-session minute queries return exactly the minutes from that session's open to its close (its first and last executable minutes for execution queries).",
 ['inputs','configurations'],'Every calendar and every pair of bounds: equal, ordered, on an entry, between entries, in a break, before the first and after the last entry.',
 'Tests use bounds that are existing sessions or minutes one step off an interior session; bounds outside the calendar span, in breaks, off the grid or on weekends are not tried.',
 [TC],[('sessions_in_range, minutes_in_range, minutes_for_session, minutes_for_sessions_in_range, execution_minutes_for_session, execution_minutes_for_sessions_in_range, session_opens_in_range, session_closes_in_range, open_and_close_for_session, break_start_and_end_for_session',TC)],[],['returned index or series'])
p('C07','Windows and distances count sessions and minutes the same way in both directions',
 "A session window of size N starts (N>=0) or ends (N<0) at the given session and holds |N|+1 consecutive sessions; a minute window holds |N| consecutive minutes starting or ending at the minute in force; windows are cut at the calendar's edge and never continue from the other end. The distance between two labels is the number of sessions on or between them, negated when the labels are given in descending order.",
 ['inputs','configurations'],'Every calendar, every anchor position including the first and last few entries, every signed count, every pair of labels including non-sessions.',
 'Tests take one block of three interior sessions per calendar, never a window that meets an edge, never a minute window at all, and never a distance between non-sessions.',
 [TC],[('sessions_window, minutes_window, session_distance',TC)],[],['returned window or distance'])
p('C08','The minute grid is complete, has no break minutes, and matches the minute counts',
 "The trading minutes of a calendar are, session by session, every whole minute from open to close inclusive, leaving out exactly the minutes strictly between break start and break end. The number of minutes reported for a range of sessions equals the number of minutes enumerated for that range.",
 ['inputs','configurations'],'Every schedule: any session length, any break position, breaks present on all, some or none of the sessions.',
 'The minute grid is compared for one full, one early-close and one late-open session per calendar; the counting function is not tested at all.',
 [TC,CH],[('compute_all_minutes',CH),('_minutes_per_session, minutes_count_for_sessions_in_range, all_minutes',TC)],[],['all_minutes, minutes_count_for_sessions_in_range'])
p('C09','Regular opens, breaks and closes are local wall-clock times of the era in force',
 "Every session's regular open, break start, break end and close is the wall-clock time, in the exchange's own time zone, listed for the latest era starting on or before that session, on the session's date shifted by the calendar's open or close day offset, and is reported in UTC (so daylight saving moves UTC, never the wall clock). Every session gets exactly one open and one close, a session on an era's first day already uses the new time, and no session uses another column's times, offset or zone. A calendar that lists break starts without break ends for some session, or the reverse, is refused with ValueError.",
 ['inputs','configurations'],'Every calendar definition: any number of eras, any zone with any daylight-saving rule, any day offset, any session range including ranges that start or end inside any era.',
 'Expected opens and closes are recorded for shipped calendars in 1990-2020 only; no test has a calendar with a close offset, break eras, or an era boundary on a session it checks by rule, and user-defined calendars are untested.',
 [TC,'trading_calendars/utils/pandas_utils.py'],[('selection, _group_times, TradingCalendar.__init__',TC),('days_at_time','trading_calendars/utils/pandas_utils.py')],[('schedule','frame of market_open, break_start, break_end, market_close',TC)],['schedule, session_open, session_close, session_break_start, session_break_end'])
p('C10','Special opens and closes apply to exactly the special sessions in the range',
 "Every session between the calendar's start and end (both included) that is listed as a late open or early close, by rule or ad hoc, has exactly the listed local time as its open or close; every other session keeps its regular times, and an early-closing session has no break. The late-open and early-close listings name exactly those sessions, and a special day that is not a session is reported as an error.",
 ['inputs','configurations'],'Every calendar definition and every start/end pair, in particular ranges that begin or end on a special day, in any zone.',
 'Tests build each calendar over one fixed range whose last day is not special (plus a one-week range with no special day), so boundary days and the interaction of rule-based and ad hoc lists at the edges are never seen.',
 [TC],[('_special_dates, _calculate_special_opens, _calculate_special_closes, scheduled_special_times, _overwrite_special_dates, _remove_breaks_for_special_dates',TC)],[('_late_opens, _early_closes','labels of special sessions',TC)],['schedule, late_opens, early_closes'])
p('C11','Sessions are exactly the trading weekdays that are not holidays',
 "A calendar's sessions are, as UTC midnights, exactly the dates from start to end (both included) that fall on one of the calendar's trading weekdays and are neither a rule-based nor an ad hoc holiday of that calendar. Every list of holidays a calendar defines takes effect, and nothing else removes or adds a session. The first and last session a calendar reports are the first and last of these.",
 ['inputs','configurations'],'Every calendar class (shipped or user-defined) and every start/end pair.',
 'Session lists are compared with one recorded range per shipped calendar; nothing checks that a definition written later, or outside that range, is wired into session generation.',
 [TC,'trading_calendars/precomputed_trading_calendar.py'],[('day (CustomBusinessDay of weekmask, adhoc_holidays, regular_holidays) and date_range',TC),('adhoc_holidays of precomputed calendars','trading_calendars/precomputed_trading_calendar.py')],[],['all_sessions, first_session, last_session, is_session'])
p('C12','Calendar lookup resolves aliases fully and builds each calendar once',
 "Looking up a name follows its chain of aliases to the end and returns the calendar registered there, building it at most once: later lookups through any alias return the identical object until the name is deregistered. A name that resolves to nothing registered raises the invalid-name error, an alias cycle raises the cycle error, and a failed lookup or a failed construction leaves nothing registered.",
 ['histories','inputs'],'Every registry content (instances, lazily built types, alias chains of any length and shape) and every sequence of lookups.',
 'Tests look up aliases over one hand-made registry holding one prebuilt instance; lazily built calendars reached through aliases, repeated lookups and failing factories are not exercised.',
 [CU,'trading_calendars/errors.py'],[('TradingCalendarDispatcher.get_calendar, resolve_alias, has_calendar, get_calendar_names',CU)],[('_calendars, _calendar_factories, _aliases','registered instances, factories, alias edges',CU)],['return value or exception of get_calendar, resolve_alias, get_calendar_names'])
p('C13','Registration changes are all-or-nothing and never shadow an existing name',
 "Registering a calendar, type or alias under a name already known in any form raises the collision error and changes nothing unless forced; a forced registration replaces every earlier meaning of that name. A registration that is refused, including an alias that would close a cycle, leaves the registry as it was, deregistering forgets the name in every form and no other name, and two registries never see each other's changes.",
 ['histories','inputs'],'Every registry content and every sequence of register, deregister and clear calls, with and without force, on one or several registries.',
 'Tests cover single collisions on an empty registry and one three-alias cycle; forced replacement across kinds, refused forced aliases and registries sharing their initial tables are not tested.',
 [CU],[('register_calendar, register_calendar_type, register_calendar_alias, deregister_calendar, clear_calendars, TradingCalendarDispatcher.__init__',CU)],[('_calendars, _calendar_factories, _aliases','registered instances, factories, alias edges',CU)],['registry content after each call, exceptions'])
p('C14','Every shipped calendar name and alias leads to the right exchange',
 "Each name in the default registry builds the calendar of that very exchange, which reports that name as its own and the exchange's time zone; every exchange calendar shipped in the package is reachable under its name. Every default alias leads to a registered exchange, the one it is a common name of, and the package-level functions all act on one shared registry.",
 ['configurations'],'All default names, all default aliases, all calendar classes in the package, all package-level functions.',
 'Tests instantiate every default name and alias but only assert that something is returned; a name or alias bound to the wrong exchange, or a package function bound to another registry, passes.',
 [CU,'trading_calendars/__init__.py'],[('_default_calendar_factories, _default_calendar_aliases, global_calendar_dispatcher and bound module functions',CU)],[],['get_calendar(name).name, .tz, resolve_alias'])
p('C15','Trading hours of every shipped calendar are well formed and never overlap',
 "For every shipped calendar and every session it can generate, the open precedes the close, a break lies strictly inside the session, the times are whole minutes, eras are listed from the beginning of time in ascending order, and a session never reaches into the next one. A special close falls after that session's open and before its regular close, and a special open after the regular open and before the close.",
 ['configurations','inputs'],'All shipped calendars, all combinations of eras in force, all special-hours entries, all trading weekdays.',
 'Tests bound the session length from above on recorded days; they do not compare special times with the hours of every era they can meet, nor check eras that begin after the recorded range.',
 ['trading_calendars/exchange_calendar_*.py','trading_calendars/us_futures_calendar.py','trading_calendars/always_open.py','trading_calendars/weekday_calendar.py'],[('open_times, break_start_times, break_end_times, close_times, open_offset, close_offset, special_opens(_adhoc), special_closes(_adhoc), weekmask of each class','trading_calendars/exchange_calendar_*.py')],[],['schedule of any built calendar'])
p('C16','Every shipped calendar can be built for any supported range',
 "For every shipped calendar and every start/end inside the years its data covers, construction succeeds: no late-open or early-close day falls on a day the same calendar treats as a holiday or as a non-trading weekday. No special day is given two different times.",
 ['configurations','inputs'],'All shipped calendars and all start/end pairs between 1970 and the end of their data (2049 where rules are open-ended).',
 'Tests build each calendar over one range ending 2016-2021, while the default range moves forward with the clock every day; future coincidences of an early close with a holiday appear only when that year comes into range.',
 ['trading_calendars/exchange_calendar_*.py','trading_calendars/*_holidays.py'],[('regular_holidays, adhoc_holidays, special_opens(_adhoc), special_closes(_adhoc), weekmask',"trading_calendars/exchange_calendar_*.py"),('_overwrite_special_dates raising on non-sessions',TC)],[],['constructor outcome'])
p('C17','Documented recurring closures and early closes continue in every future year',
 "In every year from 2020 to 2049 each shipped rule-based calendar keeps its documented regular hours and is closed on exactly the weekday closures its documentation describes as regularly observed (with the documented weekend observance), and closes early or opens late on exactly the documented days, in addition to days it lists one by one. A holiday whose rule changes over the years is observed once per year on each side of the change, with no year skipped or doubled.",
 ['inputs','configurations'],'All rule-based shipped calendars and all years 2020-2049.',
 'The recorded answers stop between 2016 and 2021; every later year, including all years the default range reaches today, is unchecked.',
 ['trading_calendars/exchange_calendar_*.py','trading_calendars/common_holidays.py','trading_calendars/us_holidays.py','trading_calendars/xtks_holidays.py','trading_calendars/xbkk_holidays.py','trading_calendars/xkls_holidays.py'],[('Holiday rules with start_date/end_date/observance/offset/days_of_week','trading_calendars/exchange_calendar_*.py, common_holidays.py, us_holidays.py')],[],['all_sessions, early_closes, late_opens of calendars built over future years'])
p('C18','Hard-coded moving-holiday dates agree with the calendar they come from',
 "Every listed Chinese lunisolar festival, Qingming, equinox, Orthodox Easter and Hebrew-calendar holiday date is the date the underlying lunisolar, solar or ecclesiastical calendar gives for that year, and every listed Islamic holiday is the tabular Islamic date within the tolerance of moon sighting and weekend substitution. Each table of such festivals is in ascending order, without duplicates, and complete for the years it spans.",
 ['inputs','configurations'],'Every entry of every moving-holiday table, and every year each table or rule spans.',
 'Tests see these tables only through recorded sessions up to 2016-2021; the tables run to 2049, and a wrong or missing future entry changes nothing the tests read.',
 ['trading_calendars/lunisolar_holidays.py','trading_calendars/common_holidays.py','trading_calendars/xtks_holidays.py','trading_calendars/xkls_holidays.py','trading_calendars/xbkk_holidays.py','trading_calendars/tase_holidays.py','trading_calendars/exchange_calendar_asex.py'],[('date tables','trading_calendars/lunisolar_holidays.py, common_holidays.py, ...'),('Hebrew date rules','trading_calendars/tase_holidays.py')],[],['the listed dates, sessions of calendars using them'])
p('C19','Calendars with bounded holiday data refuse ranges beyond it',
 "A calendar whose holidays are one hard-coded list of dates defaults to exactly the calendar years of that list; building it, or the Hong Kong calendar with its lunisolar tables, with any session in a year before or after its data raises ValueError naming the calendar and the limiting year. No range inside those years is refused. The hard-coded lists are ascending, free of duplicates, and leave no covered year empty.",
 ['inputs','configurations'],'All calendars defined by one list of dates and the Hong Kong calendar, all start/end combinations including defaults.',
 'One test per calendar tries one date far outside on each side; default bounds, the exact boundary years and one-sided arguments are not tried.',
 ['trading_calendars/precomputed_trading_calendar.py','trading_calendars/exchange_calendar_xhkg.py','trading_calendars/exchange_calendar_xbom.py','trading_calendars/exchange_calendar_xkrx.py','trading_calendars/exchange_calendar_xses.py','trading_calendars/exchange_calendar_xshg.py'],[('PrecomputedTradingCalendar.__init__','trading_calendars/precomputed_trading_calendar.py'),('XHKGExchangeCalendar.__init__','trading_calendars/exchange_calendar_xhkg.py')],[],['constructor outcome, first_session, last_session'])
p('C20','Past closures and hours of shipped calendars are history and do not change',
 "For every shipped calendar the full-day closures, special opens and closes and regular hours it assigns to dates from 1970 (or the start of its data) to the end of 2020, or of its list of dates if that is all it has, are the recorded history of that exchange. No edit elsewhere in the package alters them.",
 ['inputs','configurations'],'All shipped calendars and every date from 1970 through 2020.',
 'Recorded answers start in 1990 or later (2019 for one exchange, 2010 for another) and end as early as 2016; two shipped calendars have no or one year of recorded answers.',
 ['trading_calendars/exchange_calendar_*.py','trading_calendars/*_holidays.py','trading_calendars/us_futures_calendar.py'],[('holiday rules, ad hoc lists and hour eras of each class','trading_calendars/exchange_calendar_*.py')],[],['schedule of calendars built over historical ranges'])
p('C21','Reading a calendar never changes it or anything shared',
 "No query or property of a calendar, and no construction of another calendar or registry, changes the contents of an existing calendar, of the caller's arguments, or of the package's shared holiday tables. Reading the same definition twice yields equal results, so building the same calendar twice yields the same schedule.",
 ['histories','configurations'],'All public query methods, all definition properties of all shipped calendars, all helper functions, in any order and number of calls.',
 'Tests build each calendar once or twice per process and never compare shared tables or arguments before and after.',
 ['trading_calendars/*.py'],[('freshly built values, no in-place writes to shared arrays','trading_calendars/*.py'),('in-place overwrite confined to arrays owned by the object under construction',TC)],[],['module-level tables, arguments and existing calendars before/after any call'])
p('C22','Memoised attributes are computed once per object and cannot be overwritten',
 "A memoised attribute runs its computation at most once per object, returns the identical value on every later read, never shares a value between two unequal objects or two attributes, and rejects assignment; a calendar's list of all minutes and its session offset and an error's message are memoised. A computation that raises leaves nothing remembered, and the memo does not keep the object alive.",
 ['histories','inputs'],'Every sequence of reads and writes of memoised attributes on any set of objects, including failing computations.',
 'No test exercises the memoisation helper directly; calendars are read through it once.',
 ['trading_calendars/utils/memoize.py'],[('lazyval.__get__, __set__',"trading_calendars/utils/memoize.py")],[('_cache','per-descriptor weak mapping object -> value','trading_calendars/utils/memoize.py')],['attribute reads, exceptions, object lifetime'])
p('C23','Every error the package raises renders a complete message',
 "Every error raised anywhere in the package can be turned into text without a second failure, and every value its message template asks for is supplied and substituted at the place it is raised. Errors documented for an operation are of the documented kind and reach the caller.",
 ['inputs'],'All raise sites in the package on all paths that reach them.',
 'Most raise sites are never reached by tests, and tests that reach one rarely read its text.',
 ['trading_calendars/*.py'],[('message templates and raise sites','trading_calendars/errors.py, trading_calendar.py, calendar_utils.py, precomputed_trading_calendar.py')],[],['str(exception)'])
p('C24','The month printer brackets exactly the non-session days in the right columns',
 "The command-line month view lists each day of the requested month once, in order, under its weekday column in Sunday-first weeks, and brackets a day if and only if it is not a session. The year view shows the twelve months in order, and arguments select calendar, month and year as documented (the current month if none). Words that are not integers, months outside 1 to 12, unknown calendars and wrong argument counts are rejected with a message on standard error and a failing exit status; a request for help shows the usage.",
 ['inputs'],'Every calendar, every month of every year that dates can represent, every argument list, both copies of the tool.',
 'The command-line tool has no tests.',
 ['trading_calendars/tcal.py','etc/tcal'],[('_render_month, _concat_lines, parse_args, main','trading_calendars/tcal.py')],[],['standard output of the tool'])
p('C25','A calendar built without bounds covers the documented default span',
 "A calendar built without naming a span starts on 1990-01-01 (2000-01-01 for the Tokyo and the synthetic U.S. futures calendars) and runs until 365 days after the package was loaded, except calendars that are one list of dates. A start or end that is named, by position or by keyword, replaces exactly that bound and leaves the other at its default.",
 ['configurations','inputs'],'All default calendars, every way of naming none, one or both bounds.',
 'Tests build calendars over explicit ranges; the default range is never read, and it moves with the clock.',
 [TC,'trading_calendars/us_futures_calendar.py','trading_calendars/exchange_calendar_xtks.py','trading_calendars/exchange_calendar_xhkg.py','trading_calendars/exchange_calendar_xkrx.py'],[('start_default, end_default, constructors of the calendars and what they pass on',TC)],[],['first_session, last_session of a calendar built without bounds'])
p('C26','Orders can execute in exactly the documented minutes of a session',
 "The first and last executable minute of a session are its open and close on every shipped calendar except the synthetic U.S. futures calendar. There they are 6:31 am and 5:00 pm New York time on the session's date, whatever the season, and one hour before the close when it closes early.",
 ['configurations','inputs'],'All default calendars, every listed open and close (special ones included), dates in every month of several years.',
 'Tests check the executable minutes of one session of one calendar.',
 ['trading_calendars/us_futures_calendar.py',TC],[('execution_time_from_open, execution_time_from_close','trading_calendars/us_futures_calendar.py'),('identity hooks of the base class',TC)],[],['execution_time_from_open, execution_time_from_close, execution_minutes_for_session'])
p('C27','Everything an installed copy refers to is there',
 "Every module of the package can be imported after a plain install: each third-party module it needs is a declared dependency, each name it imports from itself exists, and every exported name and the installed command lead to a definition. No function, in the package or in the repository's scripts, reads a name that is defined nowhere, and no method reads an attribute that no class of its object defines.",
 ['configurations','inputs'],'All modules, scripts, functions and methods, on all paths.',
 'A missing name fails only when its line runs; tests do not run error paths, scripts or the installed command, and the test environment has more packages than an install brings.',
 ['trading_calendars/*.py','etc/*','setup.py'],[('imports, names, attributes, __all__, install_requires, entry_points','trading_calendars/*.py, setup.py')],[],['import of each module, the tcal command, any call'])
p('C28','Shared holiday builders give the named day and honour every option',
 "Every public builder of a holiday shared between exchanges gives the dates of the festival it is named after in every year. Start date, end date, observance and weekdays passed to it limit, move or filter those dates, each on its own and in combination, and nothing else changes.",
 ['inputs','configurations'],'All builders, every option and useful combination, years 1976-2048.',
 'Tests never call a builder; an option no shipped calendar passes, or passes with an effect after the recorded years, is never observed.',
 ['trading_calendars/common_holidays.py'],[('builder functions','trading_calendars/common_holidays.py')],[],['dates of the returned rule'])
p('C29','Answers about an instant do not depend on the zone it is written in',
 "Every lookup that takes an instant (next and previous open, close and minute, whether the market is open, the session of a minute or of an index of minutes, minute ranges and minute windows) gives the same answer for a timestamp written in any time zone as for the same instant in UTC. A timestamp outside the answerable range is refused whatever its zone.",
 ['inputs','configurations'],'All order classes of the instant, in a zone other than UTC, one to n sessions with and without breaks.',
 'Every test asks with UTC timestamps, for which reading the wall clock and reading the instant are the same.',
 ['trading_calendars/trading_calendar.py','trading_calendars/calendar_helpers.py'],[('instant queries','trading_calendars/trading_calendar.py')],[],['returned timestamps, labels, ranges and errors'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
