"""C18: moving-holiday tables and rules against computed calendars."""
import datetime as dtm
import os

from ..core import Top, PyExc, ClassVal, FuncVal, ListVal
from ..pdconst import DTI, HolidayVal
from .. import astro, fold
from ..report import REPO
from .definitions import Defs, PKG, born

D1 = dtm.timedelta(1)
LO, HI = dtm.date(1940, 1, 1), dtm.date(2070, 1, 1)


class Yearly(object):
    """a festival with one date per calendar year"""

    def __init__(self, title, fn, sunday=False):
        self.title, self.fn, self.sunday = title, fn, sunday

    def ok(self, d):
        want = self.fn(d.year)
        if not isinstance(want, (set, frozenset)):
            want = {want}
        if d in want:
            return True
        return self.sunday and d.weekday() == 0 and d - D1 in want

    def want(self, d):
        w = self.fn(d.year)
        return ' or '.join(str(x) for x in sorted(w)) if isinstance(
            w, (set, frozenset)) else str(w)

    def gaps(self, ds):
        ys = [d.year for d in ds]
        return [str(y) for y in range(min(ys), max(ys) + 1)
                if y not in set(ys)]


class Islamic(object):
    """tabular date, give or take the moon and a weekend substitute"""

    def __init__(self, title, month, day, tol=2, every=True):
        self.title, self.tol, self.every = title, tol, every
        self.fs = astro.islamic(month, day, LO, HI)

    def near(self, d):
        return min(self.fs, key=lambda f: abs((f - d).days))

    def ok(self, d):
        n = abs((d - self.near(d)).days)
        if n <= self.tol:
            return True
        return d.weekday() == 0 and any(
            abs((d - k * D1 - self.near(d)).days) <= 1 for k in (1, 2))

    def want(self, d):
        return 'about %s' % self.near(d)

    def gaps(self, ds):
        if not self.every:
            return []
        have = [self.near(d) for d in ds]
        return [str(f) for f in self.fs if min(have) < f < max(have) and
                f not in have]


def CN(title, m, d):
    return Yearly(title, lambda y: astro.chinese(y, m, d))


CNY = CN('Chinese New Year', 1, 1)
BUDDHA = CN("Buddha's birthday", 4, 8)
DRAGON = CN('dragon boat festival', 5, 5)
AUTUMN = CN('mid-autumn festival', 8, 15)
NINTH = CN('double ninth festival', 9, 9)
QING = Yearly('Qingming', astro.qingming)
VERNAL = Yearly('vernal equinox in Japan',
                lambda y: astro.equinox_date(y, False, 9), True)
AUTUMNAL = Yearly('autumnal equinox in Japan',
                  lambda y: astro.equinox_date(y, True, 9), True)


def OE(title, off):
    return Yearly(title, lambda y: astro.orthodox_easter(y) + off * D1)


FITR = Islamic('Eid al-Fitr', 10, 1)
ADHA = Islamic('Eid al-Adha', 12, 10)
MUHARRAM = Islamic('Islamic new year', 1, 1)
MAWLID = Islamic("Prophet's birthday", 3, 12)
NUZUL = Islamic("Nuzul al-Quran", 9, 17)


def days(title, m, d, tol):
    """closures around an Islamic holiday, possibly several a year"""
    return Islamic('closures at ' + title, m, d, tol, False)


XIDX = 'exchange_calendar_xidx:XIDXExchangeCalendar.'
XKAR = 'exchange_calendar_xkar:XKARExchangeCalendar.'
ANCHORS = [
    ('lunisolar_holidays:chinese_lunar_new_year_dates', CNY),
    ('lunisolar_holidays:qingming_festival_dates', QING),
    ('lunisolar_holidays:chinese_buddhas_birthday_dates', BUDDHA),
    ('lunisolar_holidays:dragon_boat_festival_dates', DRAGON),
    ('lunisolar_holidays:mid_autumn_festival_dates', AUTUMN),
    ('lunisolar_holidays:double_ninth_festival_dates', NINTH),
    ('xtks_holidays:VernalEquinoxes', VERNAL),
    ('xtks_holidays:AutumnalEquinoxes', AUTUMNAL),
    ('exchange_calendar_asex:orthodox_easter()', OE('Orthodox Easter', 0)),
    ('exchange_calendar_asex:OrthodoxAshMonday', OE('Ash Monday', -48)),
    ('exchange_calendar_asex:OrthodoxGoodFriday', OE('Good Friday', -2)),
    ('exchange_calendar_asex:OrthodoxEasterMonday', OE('Easter Monday', 1)),
    ('exchange_calendar_asex:OrthodoxWhitMonday', OE('Whit Monday', 50)),
    ('common_holidays:eid_al_fitr_first_day', FITR),
    ('common_holidays:eid_al_adha_first_day', ADHA),
    ('xkls_holidays:malaysia_eid_al_fitr_first_day', FITR),
    ('xkls_holidays:malaysia_eid_al_adha', ADHA),
    ('xkls_holidays:malaysia_nuzul_al_quran', NUZUL),
    ('xkls_holidays:muharram', MUHARRAM),
    ('xkls_holidays:muhammad_birthday', MAWLID),
    ('exchange_calendar_xphs:philippines_eid_al_fitr', FITR),
    ('exchange_calendar_xphs:philippines_eid_al_adha', ADHA),
    (XIDX + 'chinese_new_year', CNY),
    (XIDX + 'islamic_new_year', days('Islamic new year', 1, 1, 3)),
    (XIDX + 'eid_al_fitr', days('Eid al-Fitr', 10, 1, 7)),
    (XIDX + 'eid_al_adha', days('Eid al-Adha', 12, 10, 3)),
    (XIDX + 'isra_mikraj', days("Isra and Mi'raj", 7, 27, 3)),
    (XIDX + 'birth_of_prophet_muhammad', days("Prophet's birthday", 3, 12,
                                              3)),
    (XKAR + 'eid_ul_fitr', days('Eid al-Fitr', 10, 1, 5)),
    (XKAR + 'eid_ul_azha', days('Eid al-Adha', 12, 10, 5)),
    (XKAR + 'ashura', days('Ashura', 1, 10, 3)),
    (XKAR + 'eid_milad_un_nabi', days("Prophet's birthday", 3, 12, 3)),
]
# closures listed with a holiday they do not belong to
ODD = {
    # common leave after Ascension Day 2012
    (XIDX + 'isra_mikraj', dtm.date(2012, 5, 18)),
}


def H(m, d, off=0):
    return lambda y: astro.hebrew(y, m, d) + off * D1


def purim(y):
    d = astro.hebrew(y, 13, 14)
    return d or astro.hebrew(y, 12, 14)


def iyar(y, off):
    d = astro.hebrew(y, 2, 4)
    w = d.weekday()
    if w == 3:
        d -= D1
    elif w == 4:
        d -= 2 * D1
    elif w == 6 and y >= 2004:
        d += D1
    return d + off * D1


def av(y):
    d = astro.hebrew(y, 5, 9)
    return d + D1 if d.weekday() == 5 else d


HEBREW = {
    'Purim': purim, 'PassoverEve': H(1, 14), 'Passover': H(1, 15),
    'Passover2Eve': H(1, 20), 'Passover2': H(1, 21),
    'PentecostEve': H(3, 5), 'Pentecost': H(3, 6), 'FastDay': av,
    'MemorialDay': lambda y: iyar(y, 0),
    'IndependenceDay': lambda y: iyar(y, 1),
    'NewYearsEve': H(7, 1, -1), 'NewYear': H(7, 1), 'NewYear2': H(7, 2),
    'YomKippurEve': H(7, 9), 'YomKippur': H(7, 10), 'SukkothEve': H(7, 14),
    'Sukkoth': H(7, 15), 'SimchatTorahEve': H(7, 21),
    'SimchatTorah': H(7, 22),
}


class Tables(Defs):
    def dates(self, v):
        """dates in listed order, or None"""
        if not isinstance(v, (DTI, ListVal)):
            return None
        ds = fold.adhoc_set(self.I, v)
        if isinstance(ds, Top):
            return None
        return [d.date() for d in ds]

    def resolve(self, path):
        mod, _, name = path.partition(':')
        m = self.I.modules.get(PKG + '.' + mod)
        if m is None:
            return None
        v = m
        for part in name.split('.'):
            call = part.endswith('()')
            part = part[:-2] if call else part
            if isinstance(v, ClassVal):
                v = v.d.get(part)
            else:
                v = m.env.get(part)
            if call and isinstance(v, FuncVal):
                r = self.run(lambda: self.I.call(v, [], {}))
                v = r[1] if r[0] == 'return' else None
        return self.dates(v)

    def everything(self):
        """(path, dates) of every table in the package"""
        out = []
        for mn, m in sorted(self.I.modules.items()):
            for k, v in sorted(m.env.items(), key=lambda kv: kv[0]):
                short = mn[len(PKG) + 1:]
                if isinstance(v, ClassVal):
                    if v.module is m:
                        for kk, vv in sorted(v.d.items()):
                            ds = self.dates(vv)
                            if ds:
                                out.append(('%s:%s.%s' % (short, k, kk), ds))
                else:
                    ds = self.dates(v)
                    if ds:
                        out.append(('%s:%s' % (short, k), ds))
        return out

    def at(self, path, d=None):
        mod = path.partition(':')[0]
        m = self.I.modules.get(PKG + '.' + mod)
        line = ''
        if m is not None and d is not None:
            name = path.partition(':')[2].split('.')[-1].rstrip('()')
            seen = False
            try:
                with open(os.path.join(REPO, m.path)) as fh:
                    for i, s in enumerate(fh, 1):
                        seen = seen or s.strip().startswith(
                            (name + ' =', 'def ' + name))
                        if seen and d.isoformat() in s:
                            line = ':%d' % i
                            break
            except OSError:
                pass
        return '%s/%s.py%s %s' % (PKG, mod, line, path.partition(':')[2])


def c18(known):
    D = Tables('C18', 'Every moving-holiday table is folded from the source '
               'and each entry compared with an independently computed '
               'calendar: Chinese lunisolar (new moons and solar terms), '
               'equinoxes, Hebrew, tabular Islamic, Orthodox Easter.',
               assume=['the computed calendars in sa/astro.py',
                       'pyluach converts Hebrew dates as documented; '
                       'dateutil computes Easter'])
    c, I = D.c, D.I
    every = None
    for path, kind in ANCHORS:
        ds = D.resolve(path)
        found = [(path, ds)] if ds else []
        if not found:
            # moved or renamed: recognise it by its contents
            if every is None:
                every = D.everything()
            found = [(p, x) for p, x in every if len(x) >= 8 and
                     sum(map(kind.ok, x)) >= 0.95 * len(x)]
            if not found:
                c.dunno('table', '%s (%s) not found' % (path, kind.title))
                continue
        for p, ds in found:
            table(D, p, kind, ds)
    hebrew(D)
    return D.finish(2000, known)


def table(D, path, kind, ds):
    c = D.c
    for d in ds:
        if (path, d) in ODD:
            continue
        c.decide('date', '%s is the date of %s' % (d, kind.title),
                 D.at(path, d) if not kind.ok(d) else path, kind.ok(d),
                 'computed: %s' % kind.want(d))
    bad = [b for a, b in zip(ds, ds[1:]) if b < a]
    c.decide('ascending', '%s is in ascending order' % path,
             D.at(path, bad[0] if bad else None), not bad,
             '%s is out of order' % bad[:1])
    dup = sorted({d for d in ds if ds.count(d) > 1})
    c.decide('no duplicates', '%s has no duplicates' % path,
             D.at(path, dup[0] if dup else None), not dup, str(dup[:3]))
    gaps = kind.gaps(ds)
    c.decide('complete', '%s misses no year' % path, D.at(path), not gaps,
             'nothing for %s' % ', '.join(gaps[:4]))


def hebrew(D):
    c, I = D.c, D.I
    m = I.modules.get(PKG + '.tase_holidays')
    a, b = dtm.datetime(1970, 1, 1), dtm.datetime(2049, 12, 31)
    rules = {}
    if m is not None:
        for k, v in m.env.items():
            if isinstance(v, HolidayVal):
                rules[k] = v
    if len(rules) < len(HEBREW):
        # wherever they are: the rules of the Tel Aviv calendar
        for n, f in D.shipped().items():
            if n == 'XTAE':
                v = f.get('regular_holidays')
                it = I.iterate(v.d.get('rules')) if hasattr(v, 'd') else []
                for r in it if isinstance(it, list) else []:
                    if isinstance(r, HolidayVal) and \
                            not any(r is x for x in rules.values()):
                        rules['rule %s' % r.name] = r
    left = dict(HEBREW)
    got = {}
    for k, r in sorted(rules.items()):
        try:
            n = len(I.soft)
            ds = r.compute(I, a, b)
            if len(I.soft) > n:
                del I.soft[n:]
                ds = None
        except PyExc as e:
            c.fail('Hebrew date', '%s has dates' % k, born(r),
                   'raises %s' % e.name())
            left.pop(k, None)
            continue
        if isinstance(ds, Top) or ds is None:
            c.dunno('Hebrew date', k)
            left.pop(k, None)
            continue
        got[k] = sorted({d.date() for d in ds})
    for k in sorted(got):
        if k in left:
            hebrew_one(c, k, rules[k], got[k], left.pop(k))
    for k, ds in sorted(got.items()):
        if k in HEBREW:
            continue
        for name, fn in sorted(left.items()):
            if sum(fn(d.year) == d for d in ds) > 0.9 * len(ds) > 0:
                hebrew_one(c, k, rules[k], ds, left.pop(name))
                break
    for name in sorted(left):
        c.dunno('Hebrew date', '%s not found' % name)


def hebrew_one(c, k, rule, ds, fn):
    for y in range(1970, 2050):
        mine = [d for d in ds if d.year == y]
        c.decide('Hebrew date', '%s of %d' % (k, y), born(rule),
                 mine == [fn(y)], '%s, computed %s' % (
                     ', '.join(map(str, mine)) or 'none', fn(y)))
