"""The recurring closures and special hours each exchange documents, written
down from the exchanges' published rules and the calendars' own documentation,
for 2020-2049.  Nothing here is taken from the analysed code.

RULES[name] = (closures, early closes, late opens)
closures: list of rules; early, late: list of (time, rule).
A rule is a function year -> list of dates.
ONE_OFF[name] = days listed individually."""
import datetime as dtm
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import astro                                            # noqa
from sa.checks.tables import HEBREW                             # noqa

D1 = dtm.timedelta(1)
MON, TUE, WED, THU, FRI, SAT, SUN = range(7)
Date = dtm.date


def since(y0, rule, y1=9999):
    return lambda y: rule(y) if y0 <= y <= y1 else []


def until(y1, rule):
    return since(0, rule, y1)


# --- weekend observance

def plain(d):
    return d


def sun_mon(d):
    return d + D1 if d.weekday() == SUN else d


def sun_tue(d):
    return d + 2 * D1 if d.weekday() == SUN else d


def wknd_mon(d):
    return d + (7 - d.weekday()) * D1 if d.weekday() >= SAT else d


def nearest(d):
    return d - D1 if d.weekday() == SAT else sun_mon(d)


def mon_tue(d):
    """second of two consecutive days: Saturday to Monday, Sunday and Monday
    to Tuesday"""
    if d.weekday() == SAT:
        return d + 2 * D1
    if d.weekday() == SUN:
        return d + 2 * D1
    return d + D1 if d.weekday() == MON else d


def wknd_two(d):
    """second of two consecutive days whose first moves to Monday: two days
    later when it falls on a weekend"""
    return d + 2 * D1 if d.weekday() >= SAT else d


def fix(m, d, obs=plain, dow=None):
    def rule(y):
        x = obs(Date(y, m, d))
        # observed days may belong to the neighbouring year
        out = [x] if dow is None or x.weekday() in dow else []
        return out
    return rule


def nth(m, wd, n, start=1):
    """n-th weekday on or after a day of a month; n < 0 from the end"""
    def rule(y):
        if n > 0:
            d = Date(y, m, start)
            d += (wd - d.weekday()) % 7 * D1 + 7 * (n - 1) * D1
        else:
            d = (Date(y, m, 28) + 4 * D1).replace(day=1) - D1
            d -= (d.weekday() - wd) % 7 * D1 + 7 * (-n - 1) * D1
        return [d]
    return rule


def easter(off, obs=plain):
    return lambda y: [obs(astro.easter(y) + off * D1)]


def pascha(off):
    return lambda y: [astro.orthodox_easter(y) + off * D1]


def next_monday(d):
    return d + (-d.weekday()) % 7 * D1


def days(*ds):
    def rule(y):
        return [Date.fromisoformat(d) for d in ds if d[:4] == str(y)]
    return rule


NY, GF, EM, MT, ASC, WM = fix(1, 1), easter(-2), easter(1), easter(-3), \
    easter(39), easter(50)
MAY1, XE, X, BOX, NYE = fix(5, 1), fix(12, 24), fix(12, 25), fix(12, 26), \
    fix(12, 31)
EPI, ASSUM, ALLS, IMM = fix(1, 6), fix(8, 15), fix(11, 1), fix(12, 8)
WEEK = (MON, TUE, WED, THU, FRI)
EVES = [fix(12, 24), fix(12, 31)]


def tm(t, *rules):
    return [(t, r) for r in rules]


EURONEXT = ([NY, GF, EM, MAY1, X, BOX], tm('14:05', *EVES), [])

# --- United States
MLK, PRES = nth(1, MON, 3), nth(2, MON, 3)
MEMORIAL, LABOR, THANKS = nth(5, MON, -1), nth(9, MON, 1), nth(11, THU, 4)
JULY4 = fix(7, 4, nearest)
USX = fix(12, 25, nearest)
USNY = fix(1, 1, sun_mon)


def black_friday(y):
    return [THANKS(y)[0] + D1]


def july3(y):
    """July 3 when the 4th is a Tuesday to Friday (a full session on July 5)"""
    d = Date(y, 7, 3)
    return [d] if d.weekday() in (MON, TUE, WED, THU) else []


def xmas_eve_mon_thu(y):
    d = Date(y, 12, 24)
    return [d] if d.weekday() in (MON, TUE, WED, THU) else []


NYSE = ([USNY, MLK, PRES, GF, MEMORIAL, JULY4, LABOR, THANKS, USX],
        tm('13:00', july3, black_friday, xmas_eve_mon_thu), [])


def last_weekday_before(m, d):
    def rule(y):
        x = Date(y, m, d)
        while x.weekday() >= SAT:
            x -= D1
        return [x]
    return rule


# --- Britain and the Commonwealth
def xmas_pair(y):
    """Christmas and Boxing Day with substitutes on December 27 and 28"""
    out = [Date(y, 12, 25), Date(y, 12, 26)]
    if Date(y, 12, 25).weekday() >= SAT:
        out.append(Date(y, 12, 27))
    if Date(y, 12, 26).weekday() >= SAT:
        out.append(Date(y, 12, 28))
    return out


def long_weekend(m, d):
    """a holiday on a Tuesday or Thursday closes the day between it and the
    weekend as well"""
    def rule(y):
        x = Date(y, m, d)
        return [x] + {TUE: [x - D1], THU: [x + D1]}.get(x.weekday(), [])
    return rule


# --- Asia and Latin America
def mon_tue_all(d):
    """Saturday and Sunday to Monday or Tuesday, Monday to Tuesday"""
    return mon_tue(d)


def songkran3(d):
    return d + D1 if d.weekday() in (SUN, MON) else d


def chile_monday(d):
    """Tuesday to Thursday back to Monday, Friday on to Monday"""
    if d.weekday() in (TUE, WED, THU):
        return d - d.weekday() * D1
    return d + 3 * D1 if d.weekday() == FRI else d


def reformation(d):
    return {TUE: d - 4 * D1, WED: d + 2 * D1}.get(d.weekday(), d)


def israel(y):
    return [r(y) for r in HEBREW.values()]


def golden_week(y):
    """May 3, 4 and 5; one on a Sunday is made up on the first day after
    them"""
    out = [Date(y, 5, 3), Date(y, 5, 4), Date(y, 5, 5)]
    if any(d.weekday() == SUN for d in out):
        out.append(Date(y, 5, 6))
    return out


def lunar(m, d, obs=plain):
    return lambda y: [obs(astro.chinese(y, m, d))]


def hk_new_year(y):
    n = astro.chinese(y, 1, 1)
    out = [n, n + D1, n + 2 * D1]
    if any(d.weekday() == SUN for d in out):
        out.append(n + 3 * D1)
    return out


def hk_qingming(y):
    q = sun_mon(min(astro.qingming(y)))
    return [q + D1 if q == astro.easter(y) + D1 else q]


def hk_mid_autumn(y):
    d = astro.chinese(y, 8, 15) + D1
    return [d + D1 if (d.month, d.day) == (10, 1) else d]


def bridged(rule):
    """a Tuesday or Thursday holiday makes a four-day weekend, one on a weekend
    is observed on the nearest weekday"""
    def f(y):
        out = []
        for d in rule(y):
            out += [d, {TUE: d - D1, SUN: d + D1, THU: d + D1,
                        SAT: d - D1}.get(d.weekday(), d)]
        return out
    return f


def moved(rule):
    return bridged(lambda y: [nearest(d) for d in rule(y)])


def prev_friday(d):
    return d - (d.weekday() - FRI) * D1 if d.weekday() > FRI else d


def taipei_new_year(y):
    """two weekdays before and three from the new year on"""
    a = wknd_mon(astro.chinese(y, 1, 1))
    b = wknd_mon(a + D1)
    e = prev_friday(a - D1)
    return [prev_friday(e - D1), e, a, b, wknd_mon(b + D1)]


RULES = {}
ONE_OFF = {}

for n in ('XAMS', 'XBRU', 'XPAR'):
    RULES[n] = EURONEXT
RULES['XLIS'] = ([NY, GF, EM, MAY1, X, BOX], tm('13:05', *EVES), [])
RULES['XNYS'] = NYSE
RULES['XMIL'] = ([NY, GF, EM, MAY1, ASSUM, XE, X, BOX, NYE], [], [])
RULES['XHEL'] = ([NY, EPI, GF, EM, MAY1, ASC, nth(6, FRI, 1, 19),
                  fix(12, 6), XE, X, BOX, NYE], [], [])
RULES['XSTO'] = ([NY, EPI, GF, EM, MAY1, ASC, fix(6, 6),
                  nth(6, FRI, 1, 19), XE, X, BOX, NYE], tm(
    '13:00', fix(1, 5), MT, fix(4, 30), easter(38),
    nth(10, FRI, 1, 30)), [])
RULES['XCSE'] = ([NY, MT, GF, EM, easter(26), ASC, easter(40), WM,
                  fix(6, 5), XE, X, BOX, NYE], [], [])
RULES['XOSL'] = ([NY, MT, GF, EM, MAY1, ASC, fix(5, 17), WM, XE, X, BOX,
                  NYE], tm('13:00', easter(-4)), [])
RULES['XICE'] = ([NY, MT, GF, EM, nth(4, THU, 1, 19), MAY1, ASC, WM,
                  fix(6, 17), nth(8, MON, 1), XE, X, BOX, NYE], [], [])
RULES['XSWX'] = ([NY, fix(1, 2), GF, EM, MAY1, ASC, WM, fix(8, 1), XE, X,
                  BOX, NYE], [], [])
GERMANY = [NY, GF, EM, MAY1, WM, fix(10, 3), XE, X, BOX, NYE]
RULES['XETR'] = (GERMANY, tm('14:00', last_weekday_before(12, 30)), [])
RULES['XFRA'] = (GERMANY, tm('12:30', last_weekday_before(12, 30)), [])
RULES['XWBO'] = ([NY, GF, EM, MAY1, WM, fix(10, 26), XE, X, BOX, NYE],
                 [], [])
RULES['XPRA'] = ([NY, GF, EM, MAY1, fix(5, 8), fix(7, 5), fix(7, 6),
                  fix(9, 28), fix(10, 28), fix(11, 17), XE, X, BOX, NYE],
                 [], [])
RULES['XWAR'] = ([NY, EPI, GF, EM, MAY1, fix(5, 3), easter(60), ASSUM, ALLS,
                  fix(11, 11), XE, X, BOX, NYE], [], [])
RULES['XBUD'] = ([GF, EM, WM, XE, X, NYE] + [
    long_weekend(m, d) for m, d in ((1, 1), (3, 15), (5, 1), (8, 20),
                                    (10, 23), (11, 1), (12, 26))], [], [])
RULES['XMAD'] = ([NY, GF, EM, MAY1, X, BOX], tm('14:00', *EVES), [])
RULES['XDUB'] = ([fix(1, 1, wknd_mon), GF, EM, fix(5, 1, wknd_mon),
                  xmas_pair], tm('12:28', last_weekday_before(12, 24),
                                 last_weekday_before(12, 31)), [])
RULES['XLON'] = ([fix(1, 1, wknd_mon), GF, EM,
                  since(2021, nth(5, MON, 1)), days('2020-05-08'),
                  nth(5, MON, -1), nth(8, MON, -1), xmas_pair], tm('12:30', last_weekday_before(12, 24),
                                 last_weekday_before(12, 31)), [])
RULES['XTSE'] = ([fix(1, 1, wknd_mon), PRES, GF,
                  nth(5, MON, 1, 18), fix(7, 1, wknd_mon), nth(8, MON, 1),
                  LABOR, nth(10, MON, 2), xmas_pair], tm('13:00', XE), [])
RULES['ASEX'] = ([NY, EPI, fix(3, 25), GF, EM, MAY1, ASSUM, fix(10, 28), XE,
                  X, BOX] + [pascha(k) for k in (-48, -2, 1, 50)], [], [])
RULES['XASX'] = ([fix(1, 1, wknd_mon), fix(1, 26, wknd_mon), GF, EM,
                  fix(4, 25), nth(6, MON, 2), xmas_pair], tm(
    '14:10', last_weekday_before(12, 24), last_weekday_before(12, 31)), [])
RULES['XNZE'] = ([fix(1, 1, wknd_mon), fix(1, 2, mon_tue),
                  fix(2, 6, wknd_mon), GF, EM, fix(4, 25, wknd_mon),
                  nth(6, MON, 1), nth(10, MON, 4), xmas_pair], tm(
    '12:45', last_weekday_before(12, 24), last_weekday_before(12, 31)), [])
RULES['BVMF'] = ([NY, fix(1, 25), easter(-48), easter(-47), GF, easter(60),
                  fix(4, 21), MAY1, since(2021, fix(7, 9)), fix(9, 7), fix(10, 12),
                  fix(11, 2), fix(11, 15), fix(11, 20), XE, X,
                  last_weekday_before(12, 31)], [], [])
RULES['XMEX'] = ([NY, nth(2, MON, 1), nth(3, MON, 3), MT, GF, MAY1,
                  fix(9, 16), fix(11, 2), nth(11, MON, 3), fix(12, 12), X],
                 [], [])
RULES['XLIM'] = ([NY, MT, GF, MAY1, fix(6, 29), fix(7, 28), fix(7, 29),
                  fix(8, 30), fix(10, 8), ALLS, IMM, X], [], [])
RULES['XBOG'] = ([NY, fix(1, 6, next_monday), fix(3, 19, next_monday), MT,
                  GF, MAY1, easter(39, next_monday), easter(60, next_monday),
                  easter(68, next_monday), fix(6, 29, next_monday),
                  fix(7, 20), fix(8, 7), fix(8, 15, next_monday),
                  fix(10, 12, next_monday), fix(11, 1, next_monday),
                  fix(11, 11, next_monday), IMM, X,
                  last_weekday_before(12, 31)], [], [])


def nearest_monday(d):
    """Monday to Wednesday back to that week's Monday, Thursday to Sunday
    forward"""
    return d - d.weekday() * D1 if d.weekday() <= WED else next_monday(d)


RULES['XBUE'] = ([NY, easter(-48), easter(-47), fix(3, 24), fix(4, 2), MT,
                  GF, MAY1, fix(5, 25), fix(6, 17), fix(6, 20), fix(7, 9),
                  nth(8, MON, 3), fix(10, 12, nearest_monday),
                  fix(11, 17, next_monday), IMM, X], tm('13:00', *EVES), [])
RULES['XJSE'] = ([fix(1, 1, sun_mon), fix(3, 21, sun_mon), GF, EM,
                  fix(4, 27, sun_mon), fix(5, 1, sun_mon),
                  fix(6, 16, sun_mon), fix(8, 9, sun_mon),
                  fix(9, 24, sun_mon), fix(12, 16, sun_mon),
                  fix(12, 25, sun_mon), fix(12, 26, sun_mon)], [], [])
RULES['CMES'] = ([USNY, GF, USX], tm('12:00', MLK, PRES, MEMORIAL, JULY4,
                                     LABOR, THANKS, black_friday,
                                     xmas_eve_mon_thu), [])
RULES['IEPA'] = ([USNY, GF, USX], tm('13:00', MLK, PRES, MEMORIAL, JULY4,
                                     LABOR, THANKS), [])


def cfe_good_friday(y):
    """a trading day when New Year's Day or Christmas is observed on a
    Friday"""
    if any(r(y)[0].weekday() == FRI for r in (USNY, USX)):
        return []
    return GF(y)


RULES['XCBF'] = ([USNY, MLK, PRES, cfe_good_friday, MEMORIAL, JULY4, LABOR,
                  THANKS, USX], tm('12:15', black_friday), [])
RULES['us_futures'] = ([USNY, GF, USX], [], [])
RULES['24/5'] = ([], [], [])
RULES['24/7'] = ([], [], [])

# --- Thailand; the three Buddhist full-moon days are listed individually
RULES['XBKK'] = ([fix(1, 1, mon_tue_all), fix(4, 6, wknd_mon), fix(4, 13),
                  fix(4, 14, sun_mon), fix(4, 15, songkran3),
                  fix(5, 1, wknd_mon), fix(5, 4, wknd_mon),
                  fix(6, 3, wknd_mon), fix(7, 28, wknd_mon),
                  fix(8, 12, wknd_mon), fix(10, 13, wknd_mon),
                  fix(10, 23, wknd_mon), fix(12, 5, wknd_mon),
                  fix(12, 10, wknd_mon), fix(12, 31, wknd_mon)], [], [])
# --- Russia
RULES['XMOS'] = ([fix(m, d, wknd_mon) for m, d in (
    (1, 1), (1, 2), (1, 7), (2, 23), (3, 8), (5, 1), (5, 9), (6, 12),
    (11, 4), (12, 31))], [], [])
# --- Chile
RULES['XSGO'] = ([NY, GF, MAY1, fix(5, 21), fix(6, 29, chile_monday),
                  fix(7, 16), ASSUM, fix(9, 17, dow=(MON,)), fix(9, 18),
                  fix(9, 19), fix(9, 20, dow=(FRI,)),
                  fix(10, 12, chile_monday), fix(10, 31, reformation), ALLS,
                  IMM, X, NYE],
                 tm('12:30', XE, fix(12, 30)) + tm(
                     '13:30', MT, fix(9, 17, dow=(TUE, WED, THU, FRI))), [])
# --- Israel
RULES['XTAE'] = ([israel], [], [])
# --- Japan


def silver_week(y):
    """the Tuesday between Respect for the Aged Day and the equinox"""
    q = astro.equinox_date(y, True, 9)
    aged = nth(9, MON, 3)(y)[0]
    return [aged + D1] if q == aged + 2 * D1 else []


RULES['XTKS'] = ([NY, fix(1, 2), fix(1, 3), nth(1, MON, 2),
                  fix(2, 11, sun_mon), fix(2, 23, sun_mon),
                  lambda y: [sun_mon(astro.equinox_date(y, False, 9))],
                  fix(4, 29, sun_mon), golden_week,
                  since(2022, nth(7, MON, 3)), since(2022, fix(8, 11, sun_mon)),
                  days('2020-07-23', '2021-07-22', '2020-08-10',
                       '2021-08-09', '2020-07-24', '2021-07-23'),
                  nth(9, MON, 3), silver_week,
                  lambda y: [sun_mon(astro.equinox_date(y, True, 9))],
                  since(2022, nth(10, MON, 2)), fix(11, 3, sun_mon),
                  fix(11, 23, sun_mon), NYE], [], [])
# --- Hong Kong
RULES['XHKG'] = ([fix(1, 1, sun_mon), hk_new_year, hk_qingming, GF, EM,
                  fix(5, 1, sun_mon), lunar(4, 8, sun_mon),
                  lunar(5, 5, sun_mon), fix(7, 1, sun_mon), hk_mid_autumn,
                  fix(10, 1, sun_mon), lunar(9, 9, sun_mon), X, BOX,
                  fix(12, 27, dow=(MON, TUE))],
                 tm('12:00', lambda y: [astro.chinese(y, 1, 1) - D1], XE,
                    NYE), [])
# --- Taiwan
RULES['XTAI'] = ([bridged(fix(1, 1)), taipei_new_year, bridged(fix(2, 28)),
                  bridged(fix(4, 4)), moved(lambda y: [min(astro.qingming(y))]),
                  fix(5, 1, sun_mon), moved(lunar(5, 5)), moved(lunar(8, 15)),
                  bridged(fix(10, 10))], [], [])
ONE_OFF['XTAI'] = ['2020-01-21', '2020-01-22', '2020-04-02']
ONE_OFF['XTAE'] = ['2020-03-02', '2021-03-23']
# --- exchanges closing on Islamic, Hindu and Buddhist days, listed one by one
RULES['XIST'] = ([NY, fix(4, 23), MAY1, fix(5, 19), fix(7, 15), fix(8, 30),
                  fix(10, 29)], tm('12:30', fix(10, 28)), [])
RULES['XIDX'] = ([NY, GF, MAY1, ASC, fix(6, 1), fix(8, 17), X, NYE], [], [])
RULES['XKAR'] = ([fix(2, 5), fix(3, 23), MAY1, fix(8, 14), X], [], [])
RULES['XPHS'] = ([NY, fix(2, 25), fix(4, 9), MT, GF, MAY1, fix(6, 12),
                  fix(8, 21), nth(8, MON, -1), ALLS, fix(11, 2, dow=(FRI,)),
                  fix(11, 30), XE, X, fix(12, 30), NYE], [], [])
RULES['XKLS'] = ([fix(1, 1, sun_mon), fix(2, 1, sun_mon),
                  fix(5, 1, sun_mon), fix(8, 31, sun_mon),
                  fix(9, 16, sun_mon), fix(12, 25, sun_mon)], [], [])
LISTED = ['XBKK', 'XIST', 'XIDX', 'XKAR', 'XPHS', 'XKLS']


LO, HI = dtm.datetime(2020, 1, 1), dtm.datetime(2049, 12, 31)


def expected(name, mask, listed, listed_early):
    """(closures, late opens, early closes) in LO..HI"""
    cl, ea, la = RULES[name]

    def ev(r):
        return {d for y in range(LO.year - 1, HI.year + 2) for d in r(y)
                if LO.date() <= d <= HI.date() and mask[d.weekday()]}
    one = {Date.fromisoformat(x) for x in ONE_OFF.get(name, [])}
    closed = set().union(one, *[ev(r) for r in cl])
    early = {d: t for t, r in ea for d in ev(r)}
    if name in LISTED:
        closed |= listed
        early.update(listed_early)
    late = {d: t for t, r in la for d in ev(r)}
    return (closed, {d: t for d, t in late.items() if d not in closed},
            {d: t for d, t in early.items() if d not in closed})


def main():
    """write data/documented.json; the individually listed days of LISTED and
    the regular hours are recorded from the folded definitions (the lists are
    checked against astronomy by C18, the hours against the documentation by
    C14)"""
    import json
    from sa import history
    from sa.checks.definitions import Defs, HERE
    from sa.fold import adhoc_set
    D = Defs('C17', '')
    out = {}
    for n, f in sorted(D.shipped().items()):
        if n not in RULES:
            print(n, 'has no recurring rules')
            continue
        m = f.mask()
        listed = {d.date() for d in adhoc_set(
            D.I, f.get('adhoc_holidays'), True) if LO <= d <= HI
            and m[d.weekday()]} if n in LISTED else set()
        got = history.days(f, LO, HI)
        extra = {}
        if n in LISTED:
            rules = expected(n, m, listed, {})[2]
            extra = {d: t for d, t in got[2].items() if d not in rules}
        want = expected(n, m, listed, extra)
        print(n, len(want[0]), len(want[1]), len(want[2]),
              'listed %d+%d' % (len(listed), len(extra)),
              '' if want == got else 'DIFFERS')
        out[n] = {'from': str(LO.date()), 'to': str(HI.date()),
                  'weekdays': ''.join('01'[bool(x)] for x in m),
                  'offsets': [f.get('open_offset'), f.get('close_offset')],
                  'hours': history.hours(D.I, f, LO, HI),
                  'closed': history.pack(want[0]),
                  'late': history.pack(want[1]),
                  'early': history.pack(want[2])}
    with open(os.path.join(HERE, 'data', 'documented.json'), 'w') as fh:
        json.dump(out, fh, indent=0, sort_keys=True)
        fh.write('\n')


if __name__ == '__main__':
    main()
