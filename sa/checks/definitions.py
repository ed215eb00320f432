"""C14-C16, C19: what the shipped calendar definitions say, folded from the
sources."""
import ast
import datetime as dtm
import json
import os

from ..core import (Top, PyExc, Undecided, AnalysisError, ClassVal, InstVal,
                    BoundMethod, AbsVal, DictVal, FuncVal)
from ..report import Check, REPO, HERE
from .. import fold, history
from ..fold import make_interp, Facts, parse_mask
from ..pdconst import TS, NowTS, DTI, TZ, UTCZ, CBD, TimeVal, HolidayVal
from ..history import TIMES, eras, at
from .registry import Token

PKG = fold.PKG
A, B = dtm.datetime(1970, 1, 1), dtm.datetime(2049, 12, 31)

ASSUME = ['pandas holiday rules, offsets and index operations are modelled '
          'as documented; the model was compared with the library for every '
          'shipped calendar while it was built',
          'time-zone rules are those of the tz database']

# ---------------------------------------------------------------- reference

ZONES = {
    '24/5': 'UTC', '24/7': 'UTC', 'us_futures': 'America/New_York',
    'ASEX': 'Europe/Athens', 'BVMF': 'America/Sao_Paulo',
    'CMES': 'America/Chicago', 'IEPA': 'America/New_York',
    'XAMS': 'Europe/Amsterdam', 'XASX': 'Australia/Sydney',
    'XBKK': 'Asia/Bangkok',
    # the Colombian exchange trades by the New York clock
    'XBOG': 'America/New_York', 'XBOM': 'Asia/Kolkata',
    'XBRU': 'Europe/Brussels', 'XBUD': 'Europe/Budapest',
    'XBUE': 'America/Argentina/Buenos_Aires', 'XCBF': 'America/Chicago',
    'XCSE': 'Europe/Copenhagen', 'XDUB': 'Europe/Dublin',
    'XETR': 'Europe/Berlin', 'XFRA': 'Europe/Berlin',
    'XHEL': 'Europe/Helsinki', 'XHKG': 'Asia/Hong_Kong',
    'XICE': 'Atlantic/Reykjavik', 'XIDX': 'Asia/Jakarta',
    'XIST': 'Europe/Istanbul', 'XJSE': 'Africa/Johannesburg',
    'XKAR': 'Asia/Karachi', 'XKLS': 'Asia/Kuala_Lumpur',
    'XKRX': 'Asia/Seoul', 'XLIM': 'America/Lima', 'XLIS': 'Europe/Lisbon',
    'XLON': 'Europe/London', 'XMAD': 'Europe/Madrid',
    'XMEX': 'America/Mexico_City', 'XMIL': 'Europe/Rome',
    'XMOS': 'Europe/Moscow', 'XNYS': 'America/New_York',
    'XNZE': 'Pacific/Auckland', 'XOSL': 'Europe/Oslo',
    'XPAR': 'Europe/Paris', 'XPHS': 'Asia/Manila', 'XPRA': 'Europe/Prague',
    'XSES': 'Asia/Singapore', 'XSGO': 'America/Santiago',
    'XSHG': 'Asia/Shanghai', 'XSTO': 'Europe/Stockholm',
    'XSWX': 'Europe/Zurich', 'XTAE': 'Asia/Jerusalem',
    'XTAI': 'Asia/Taipei', 'XTKS': 'Asia/Tokyo', 'XTSE': 'America/Toronto',
    'XWAR': 'Europe/Warsaw', 'XWBO': 'Europe/Vienna',
}
SAME_ZONE = [
    {'Europe/Berlin', 'CET', 'MET'}, {'Pacific/Auckland', 'NZ'},
    {'Asia/Kolkata', 'Asia/Calcutta'}, {'Asia/Jerusalem', 'Asia/Tel_Aviv',
                                        'Israel'},
    {'UTC', 'Etc/UTC', 'GMT', 'Etc/GMT', 'Zulu'},
    {'America/New_York', 'US/Eastern', 'EST5EDT'},
    {'America/Chicago', 'US/Central', 'CST6CDT'},
    {'Asia/Tokyo', 'Japan'}, {'Asia/Hong_Kong', 'Hongkong'},
    {'Asia/Seoul', 'ROK'}, {'Asia/Singapore', 'Singapore'},
    {'Asia/Shanghai', 'PRC'}, {'Asia/Taipei', 'ROC'},
    {'Europe/London', 'GB'}, {'Europe/Dublin', 'Eire'},
    {'Europe/Lisbon', 'Portugal'}, {'Europe/Warsaw', 'Poland'},
    {'Europe/Istanbul', 'Turkey', 'Asia/Istanbul'},
    {'America/Toronto', 'Canada/Eastern'},
    {'America/Sao_Paulo', 'Brazil/East'},
    {'America/Argentina/Buenos_Aires', 'America/Buenos_Aires'},
    {'America/Santiago', 'Chile/Continental'},
    {'Atlantic/Reykjavik', 'Iceland'},
    {'Australia/Sydney', 'Australia/NSW', 'Australia/ACT'},
    {'Europe/Moscow', 'W-SU'},
    {'America/Mexico_City', 'Mexico/General'},
]
ALIASES = {
    'NYSE': 'XNYS', 'NASDAQ': 'XNYS', 'BATS': 'XNYS', 'FWB': 'XFRA',
    'LSE': 'XLON', 'TSX': 'XTSE', 'BMF': 'BVMF', 'CME': 'CMES',
    'CBOT': 'CMES', 'COMEX': 'CMES', 'NYMEX': 'CMES', 'ICE': 'IEPA',
    'ICEUS': 'IEPA', 'NYFE': 'IEPA', 'CFE': 'XCBF', 'JKT': 'XIDX',
    'SIX': 'XSWX', 'JPX': 'XTKS', 'ASX': 'XASX', 'HKEX': 'XHKG',
    'OSE': 'XOSL', 'BSE': 'XBOM', 'SSE': 'XSHG', 'TASE': 'XTAE',
}


def zone_ok(got, want):
    if got == want:
        return True
    return any(got in s and want in s for s in SAME_ZONE)


class Defs(object):
    def __init__(self, pid, rule, now=(2020, 10), assume=ASSUME):
        self.c = Check(pid, rule, assume)
        self.I = I = make_interp(REPO, now)
        for m in sorted(I.modules):
            try:
                I.import_module(m)
            except PyExc as e:
                raise AnalysisError('module %s raises %s' % (m, e.name()))
        self.tc = fold.base_class(I)
        self.pkg = I.import_module(PKG)
        self.orig = I.instantiate
        I.instantiate = self.instantiate
        self.stub = True
        self._facts = {}

    def instantiate(self, cls, args, kw):
        if self.stub and cls.subclass_of(self.tc):
            return InstVal(self.I, cls)
        return self.orig(cls, args, kw)

    def fn(self, name):
        v = self.pkg.env.get(name)
        if v is None:
            raise AnalysisError('anchor missing: %s.%s' % (PKG, name))
        return v

    def run(self, f):
        I = self.I
        I.begin_path()
        I.choices = []
        I.fuel = 400000
        try:
            r = ('return', f())
        except PyExc as e:
            r = ('raise', e)
        except Undecided as e:
            return ('?', str(e))
        if I.soft:
            why = I.soft[0]
            I.soft = []
            return ('?', why)
        if r[0] == 'return' and isinstance(r[1], Top):
            return ('?', r[1].why)
        return r

    def call(self, name, *args, **kw):
        return self.run(lambda: self.I.call(self.fn(name), list(args), kw))

    def names(self):
        r = self.call('get_calendar_names')
        it = self.I.iterate(r[1]) if r[0] == 'return' else None
        if not isinstance(it, list) or \
                not all(isinstance(x, str) for x in it):
            raise AnalysisError('default registry names not analysable: %r'
                                % (r,))
        return sorted(set(it))

    def registry(self):
        """{name: class} of canonical names, {alias: canonical}"""
        cls, ali = {}, {}
        for n in self.names():
            r = self.call('resolve_alias', n)
            if r[0] == 'return' and isinstance(r[1], str) and r[1] != n:
                ali[n] = r[1]
                continue
            r = self.call('get_calendar', n)
            if r[0] == 'return' and isinstance(r[1], InstVal):
                cls[n] = r[1].cls
            else:
                cls[n] = r
        return cls, ali

    def shipped(self):
        """canonical name -> Facts"""
        cls, _ = self.registry()
        return {n: self.facts(c) for n, c in sorted(cls.items())
                if isinstance(c, ClassVal)}

    def facts(self, cls):
        if cls not in self._facts:
            self._facts[cls] = Facts(self.I, cls)
        return self._facts[cls]

    def site(self, cls, member=None):
        if member:
            v, c = cls.lookup(member)
            f = v
            for a in ('fget', 'func', 'f'):
                f = getattr(f, a, f)
            n = getattr(f, 'node', None)
            if n is None and c is not None and c.node is not None:
                n = next((x for x in c.node.body if isinstance(x, ast.Assign)
                          and any(isinstance(t, ast.Name) and t.id == member
                                  for t in x.targets)), None)
            if c is not None:
                return '%s:%s %s.%s' % (c.module.path, getattr(
                    n, 'lineno', '?'), c.name, member)
        return '%s:%s %s' % (cls.module.path, getattr(cls.node, 'lineno',
                                                      '?'), cls.name)

    def finish(self, floor, known):
        self.c.functions = {str(f) for f in self.I.called}
        self.c.extra['calendar_classes'] = len(self._facts)
        return self.c.finish(floor, known)


def born(rule):
    """where a holiday rule is written"""
    b = rule.born
    return '%s:%s' % (b[0], b[2]) if isinstance(b, tuple) and len(b) == 3 \
        else str(b)


def verdict(r, ok):
    if r[0] == '?':
        return None
    return bool(r[0] == 'return' and ok(r[1]))


def shown(r):
    return '%s %r' % (r[0], r[1].name() if isinstance(r[1], PyExc) else r[1])


# ---------------------------------------------------------------------- C14


def c14(known):
    D = Defs('C14', 'Each default name is resolved through the interpreted '
             'package-level functions (calendar construction stubbed); the '
             'class reached must fold to that name and to the exchange\'s '
             'zone, and each alias to its exchange.')
    c, I = D.c, D.I
    cls, ali = D.registry()
    site = '%s.get_calendar' % PKG
    for n, k in sorted(cls.items()):
        if not isinstance(k, ClassVal):
            c.decide('name builds', '%s builds a calendar' % n, site,
                     None if k[0] == '?' else False, shown(k))
            continue
        f = D.facts(k)
        nm = f.get('name')
        c.decide('own name', 'the calendar registered as %s reports that '
                 'name' % n, D.site(k, 'name'),
                 nm == n if isinstance(nm, str) else None, repr(nm))
        tz = f.get('tz')
        if n in ZONES:
            c.decide('zone', '%s is in %s' % (n, ZONES[n]), D.site(k, 'tz'),
                     zone_ok(tz.name, ZONES[n]) if isinstance(tz, TZ)
                     else None, repr(tz))
    for n in sorted(ZONES):
        if n not in cls:
            c.fail('registered', '%s is registered' % n, site,
                   'not among the default names')
        else:
            c.ok('registered')
    back = {}
    shipped = fold.all_calendar_classes(I)
    for k in shipped:
        f = D.facts(k)
        nm = f.get('name')
        if not isinstance(nm, str):
            continue           # abstract bases
        r = D.call('get_calendar', nm)
        if any(x is not k and x.subclass_of(k) and
               D.facts(x).get('name') == nm for x in shipped):
            continue           # part of the class of that name
        c.decide('reachable', 'class %s is what its name %s leads to' % (
            k.name, nm), D.site(k), verdict(
                r, lambda v: isinstance(v, InstVal) and v.cls is k), shown(r))
        back.setdefault(nm, []).append(k.name)
    for nm, ks in sorted(back.items()):
        c.decide('unique', 'one class is named %s' % nm, site, len(ks) == 1,
                 ', '.join(ks))
    for a, n in sorted(ali.items()):
        c.decide('alias leads somewhere', 'alias %s leads to a registered '
                 'calendar' % a, '%s.calendar_utils' % PKG,
                 isinstance(cls.get(n), ClassVal), n)
        if a in ALIASES:
            c.decide('alias', 'alias %s means %s' % (a, ALIASES[a]),
                     '%s.calendar_utils' % PKG, n == ALIASES[a], n)
    # the package-level functions act on one registry
    t1, t2 = Token('one'), Token('two')
    steps = [
        ('register_calendar', ('Tst-1', t1), None),
        ('get_calendar', ('Tst-1',), t1),
        ('register_calendar_alias', ('Tst-2', 'Tst-1'), None),
        ('resolve_alias', ('Tst-2',), 'Tst-1'),
        ('get_calendar', ('Tst-2',), t1),
        ('deregister_calendar', ('Tst-1',), None),
        ('get_calendar', ('Tst-2',), 'raise'),
        ('register_calendar_type', ('Tst-1', Make(t2)), None),
        ('get_calendar', ('Tst-2',), t2),
    ]
    for fn, args, want in steps:
        r = D.call(fn, *args)
        if want is None:
            v = verdict(r, lambda v: True)
        elif want == 'raise':
            v = None if r[0] == '?' else r[0] == 'raise'
        else:
            v = verdict(r, lambda v: v is want or (isinstance(want, str) and
                                                   v == want))
        c.decide('one registry', 'package-level %s%s' % (fn, args),
                 '%s.%s' % (PKG, fn), v, shown(r))
    r = D.call('get_calendar_names')
    it = I.iterate(r[1]) if r[0] == 'return' else None
    c.decide('one registry', 'package-level get_calendar_names shows '
             'registered names', '%s.get_calendar_names' % PKG,
             None if not isinstance(it, list) else
             {'Tst-1', 'Tst-2', 'XNYS'} <= set(it), '')
    D.call('clear_calendars')
    r = D.call('get_calendar_names')
    it = I.iterate(r[1]) if r[0] == 'return' else None
    c.decide('one registry', 'package-level clear_calendars empties it',
             '%s.clear_calendars' % PKG,
             None if not isinstance(it, list) else it == [], repr(it)[:80])
    return D.finish(150, known)


class Make(AbsVal):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'type'

    def call(self, I, args, kw):
        return self.t

    def truth(self, I):
        return True


# ---------------------------------------------------------------------- C15


def mins(t):
    return t.hour * 60 + t.minute


def c15(known):
    D = Defs('C15', 'Eras, offsets, special hours and weekday masks of every '
             'shipped calendar are folded; the order of open, break, close '
             'and next open is decided for every combination of eras in '
             'force and every special day 1970-2049.')
    c, I = D.c, D.I
    for n, f in D.shipped().items():
        k = f.cls
        es, bad = {}, False
        for p in TIMES:
            es[p] = eras(I, f.get(p))
            if isinstance(es[p], Top):
                c.dunno('eras', '%s %s: %s' % (n, p, es[p].why))
                bad = True
        oo, co = f.get('open_offset'), f.get('close_offset')
        mask = f.mask()
        if bad or not isinstance(oo, int) or not isinstance(co, int) or \
                mask is None:
            c.dunno('eras', '%s offsets or weekdays' % n)
            continue
        ok = True
        for p in TIMES:
            if es[p] is None:
                c.decide('listed', '%s lists %s' % (n, p), D.site(k, p),
                         p.startswith('break'), 'none')
                ok = ok and p.startswith('break')
                continue
            ds = [d for d, _ in es[p]]
            c.decide('eras ascend', '%s %s start at the beginning of time '
                     'and ascend' % (n, p), D.site(k, p), bool(ds) and
                     ds[0] is None and None not in ds[1:] and
                     all(x < y for x, y in zip(ds[1:], ds[2:])),
                     str(ds[:4]))
            ok = ok and bool(ds) and ds[0] is None and None not in ds[1:]
            c.decide('era dates', '%s %s: eras start at midnight' % (n, p),
                     D.site(k, p), all(d is None or d.time() == dtm.time()
                                       for d in ds), str(ds[:4]))
            c.decide('whole minutes', '%s %s are whole minutes' % (n, p),
                     D.site(k, p), all(not t.second and not t.microsecond
                                       for _, t in es[p]), '')
        c.decide('breaks paired', '%s has both or neither break end' % n,
                 D.site(k, 'break_end_times'),
                 (es['break_start_times'] is None) ==
                 (es['break_end_times'] is None), '')
        if not ok or (es['break_start_times'] is None) != \
                (es['break_end_times'] is None):
            continue
        # dates at which the combination of eras changes
        cuts = sorted({A} | {d for p in TIMES for d, _ in es[p] or []
                             if d is not None})
        brk = es['break_start_times'] is not None
        for i, d in enumerate(cuts):
            o = mins(at(es['open_times'], d)) + 1440 * oo
            cl = mins(at(es['close_times'], d)) + 1440 * co
            when = 'from %s' % d.date()
            c.decide('open before close', '%s opens before it closes %s' % (
                n, when), D.site(k, 'close_times'), o < cl,
                '%d, %d minutes' % (o, cl))
            if brk:
                b = mins(at(es['break_start_times'], d))
                e = mins(at(es['break_end_times'], d))
                c.decide('break inside', '%s has its break inside the '
                         'session %s' % (n, when),
                         D.site(k, 'break_start_times'), o < b < e < cl,
                         '%d < %d < %d < %d' % (o, b, e, cl))
            # the next session may be the first one of the next eras
            for d2 in cuts[i:i + 2]:
                o2 = mins(at(es['open_times'], d2)) + 1440 * oo
                gap = min_gap(mask)
                c.decide('no overlap', '%s closes before the next session '
                         'opens %s' % (n, when), D.site(k, 'open_times'),
                         cl < o2 + 1440 * gap, 'close %d, next open %d' % (
                             cl, o2 + 1440 * gap))
        special_hours(D, n, f, es, oo, co, brk)
    return D.finish(700, known)


def min_gap(mask):
    ds = [i for i in range(14) if mask[i % 7]]
    return min(b - a for a, b in zip(ds, ds[1:]))


def special_hours(D, n, f, es, oo, co, brk):
    c, k = D.c, f.cls
    sp = {}
    for which in ('opens', 'closes'):
        r = f.special(which, A, B)
        if isinstance(r, Top):
            c.dunno('special hours', '%s %s: %s' % (n, which, r.why))
            return
        sp[which] = r
    opens = {d: t for d, t, _ in sp['opens']}
    closes = {d: t for d, t, _ in sp['closes']}
    for which in ('opens', 'closes'):
        bad, good, why = None, 0, ''
        for d, t, kind in sp[which]:
            day = dtm.datetime(d.year, d.month, d.day)
            ro = mins(at(es['open_times'], day)) + 1440 * oo
            rc = mins(at(es['close_times'], day)) + 1440 * co
            m = mins(t)
            if t.second or t.microsecond:
                v, why = False, 'not a whole minute'
            elif which == 'closes':
                o = mins(opens[d]) if d in opens else ro
                v = o < m < rc
                why = '%s early close %s, open minute %d, regular close ' \
                    'minute %d' % (d, t, o, rc)
            else:
                cl = mins(closes[d]) if d in closes else rc
                v = ro < m < cl
                why = '%s late open %s, regular open minute %d, close ' \
                    'minute %d' % (d, t, ro, cl)
                if v and brk and d not in closes:
                    v = m < mins(at(es['break_start_times'], day))
            if not v:
                bad = bad or []
                if len(bad) < 3:
                    bad.append(why)
            else:
                good += 1
        if bad:
            c.fail('special hours', '%s special %s lie inside the regular '
                   'session' % (n, which), D.site(k, 'special_' + which),
                   '; '.join(bad))
        elif good:
            c.ok('special hours', good, '%s: %d special %s' % (n, good,
                                                               which))


# ---------------------------------------------------------------------- C16


def c16(known):
    D = Defs('C16', 'Folded special days of every shipped calendar are '
             'intersected with its folded non-sessions for 1970-2049, and '
             'days with two different special times are looked for.')
    c, I = D.c, D.I
    for n, f in D.shipped().items():
        k = f.cls
        for p in Facts.FIELDS:
            v = f.get(p)
            if p in f.err:
                c.fail('definition', '%s %s can be read' % (n, p),
                       D.site(k, p), 'raises %s' % f.err[p].name())
            elif isinstance(v, Top):
                c.dunno('definition', '%s %s: %s' % (n, p, v.why))
            else:
                c.ok('definition')
        lo, hi = bounds(D, f)
        ses, why = f.sessions(lo, hi)
        if ses is None:
            rules(c, '%s holidays' % n, D.site(k, 'regular_holidays'), why)
            continue
        ses = set(ses)
        for which in ('opens', 'closes'):
            r = f.special(which, lo, hi)
            if isinstance(r, Top):
                rules(c, '%s special %s' % (n, which),
                      D.site(k, 'special_' + which), r.why)
                continue
            by = {}
            for d, t, kind in r:
                by.setdefault(d, set()).add(t)
                if d in ses:
                    c.ok('special day is a session', sample='%s %s' % (n, d))
                else:
                    c.fail('special day is a session', '%s special %s on %s, '
                           'which is not a session' % (n, which, d),
                           D.site(k, 'special_' + which +
                                  ('_adhoc' if kind == 'adhoc' else '')),
                           'construction over that day fails')
            two = sorted(d for d, ts in by.items() if len(ts) > 1)
            c.decide('one time', '%s special %s have one time each' % (
                n, which), D.site(k, 'special_' + which), not two,
                ', '.join(str(d) for d in two[:4]))
    return D.finish(2500, known)


def rules(c, what, site, why):
    if why.startswith('raises '):
        c.fail('rules', '%s can be listed' % what, site, why)
    else:
        c.dunno('rules', '%s: %s' % (what, why))


def bounds(D, f):
    """years the data covers, for calendars that are only a list"""
    v, ic = f.cls.lookup('precomputed_holidays')
    if ic is not None:
        ds = fold.adhoc_set(D.I, f.get('precomputed_holidays'))
        if not isinstance(ds, Top) and ds:
            return (dtm.datetime(min(ds).year, 1, 1),
                    dtm.datetime(max(ds).year, 12, 31))
    if f.cls.name.startswith('XHKG'):
        return dtm.datetime(1981, 1, 1), B
    return A, B


# ---------------------------------------------------------------------- C19


def c19(known):
    D = Defs('C19', 'Constructors of the bounded calendars are interpreted '
             'with the base constructor stubbed to produce a first and last '
             'session in the year before, at, inside, at the end of and after '
             'the years of the folded table; refusal must happen exactly '
             'outside.')
    c, I = D.c, D.I
    D.stub = False
    base_init, ic = D.tc.lookup('__init__')
    if not isinstance(base_init, FuncVal):
        raise AnalysisError('anchor missing: calendar constructor')
    seen = {}

    def stub(I, f, args, kw):
        inst = args[0]
        a = list(args[1:]) + [None, None]
        start = kw.get('start', a[0])
        end = kw.get('end', a[1])
        seen['start'], seen['end'] = start, end
        first, last = seen['span'] or (start, end)
        if isinstance(first, TS) and isinstance(last, TS):
            inst.d['first_trading_session'] = first
            inst.d['last_trading_session'] = last
            inst.d['schedule'] = Sched(DTI(I, [first.dt, last.dt], UTCZ))
        else:
            inst.d['first_trading_session'] = Top('first session')
            inst.d['last_trading_session'] = Top('last session')
        return None
    I.ctx.setdefault('intercept', {})[base_init.qualname] = stub

    n_cal = 0
    cls, _ = D.registry_classes()
    for n, k in sorted(cls.items()):
        f = D.facts(k)
        pure = k.lookup('precomputed_holidays')[1] is not None
        if pure:
            ds = fold.adhoc_set(I, f.get('precomputed_holidays'))
            if isinstance(ds, Top):
                c.dunno('table', '%s: %s' % (n, ds.why))
                continue
            if not ds:
                c.fail('table', '%s has holidays' % n, D.site(k), 'empty')
                continue
            n_cal += 1
            y0, y1 = min(ds).year, max(ds).year
            s = D.site(k, 'precomputed_holidays')
            c.decide('ascending', '%s table ascends' % n, s,
                     ds == sorted(ds), first_bad(ds))
            c.decide('no duplicates', '%s table has no duplicates' % n, s,
                     len(ds) == len(set(ds)), first_bad(sorted(ds)))
            miss = sorted(set(range(y0, y1 + 1)) - {d.year for d in ds})
            c.decide('complete', '%s table has no empty year' % n, s,
                     not miss, str(miss))
            # the table really is what closes the exchange
            got, why = f.closures(dtm.datetime(y0, 1, 1),
                                  dtm.datetime(y1, 12, 31))
            c.decide('in force', '%s table is in force' % n, s,
                     None if got is None else
                     {d.date() for d in ds} <= got, why or '')
        elif n == 'XHKG':
            y0, y1 = hkg_years(D, k)
            n_cal += 1
            if y0 is None:
                y0, y1 = 1981, 2049
        else:
            continue
        guard(D, n, k, y0, y1, pure, seen)
    c.extra['bounded_calendars'] = n_cal
    if n_cal < 5:
        raise AnalysisError('only %d bounded calendars found' % n_cal)
    return D.finish(150, known)


class Sched(AbsVal):
    def __init__(self, idx):
        self.idx = idx

    def a_index(self, I):
        return self.idx


def first_bad(ds):
    for a, b in zip(ds, ds[1:]):
        if a >= b:
            return '%s then %s' % (a.date(), b.date())
    return ''


def hkg_years(D, k):
    """years every lunisolar table used by the Hong Kong calendar spans"""
    m = D.I.modules.get(PKG + '.lunisolar_holidays')
    if m is None:
        return None, None
    names = ('chinese_buddhas_birthday_dates', 'chinese_lunar_new_year_dates',
             'mid_autumn_festival_dates', 'double_ninth_festival_dates',
             'dragon_boat_festival_dates', 'qingming_festival_dates')
    lo, hi = 0, 9999
    for nm in names:
        v = m.env.get(nm)
        if nm not in m.env and nm == 'mid_autumn_festival_dates':
            v = m.env.get('day_after_mid_autumn_festival_dates')
        ds = fold.adhoc_set(D.I, v) if v is not None else Top(nm)
        if isinstance(ds, Top) or not ds:
            return None, None
        lo, hi = max(lo, min(ds).year), min(hi, max(ds).year)
    return lo, hi


def day(y, m=6, d=15):
    return TS(dtm.datetime(y, m, d), UTCZ)


def build(D, k, seen, span, args=(), kw=None):
    seen.clear()
    seen['span'] = span
    return D.run(lambda: D.I.call(k, list(args), dict(kw or {})))


class Reached(Undecided):
    """the session index is about to be laid out"""


def mixed(a, b):
    """one bound with a zone, the other without: refused by the index"""
    return all(isinstance(x, (TS, NowTS)) for x in (a, b)) and \
        (a.tz is None) != (b.tz is None)


def laid_out(D, n, k, y0, y1, site):
    """the bounds in force where the sessions are laid out"""
    c, I = D.c, D.I
    got = {}

    def layout(I, start, end, periods, freq, tz, closed):
        if isinstance(freq, CBD):
            got['b'] = start, end
            raise Reached('session index')
        return None
    icept, hook = I.ctx.pop('intercept', {}), I.ctx.get('date_range')
    I.ctx['date_range'] = layout
    try:
        for kw, what in (({}, 'no range'),
                         ({'start': day(y0, 2, 1)}, 'only a start'),
                         ({'end': day(y1, 2, 1)}, 'only an end')):
            got.clear()
            r = D.run(lambda: I.call(k, [], dict(kw)))
            key = '%s built with %s' % (n, what)
            if 'b' not in got:
                c.decide('laid out', key, site, False if r[0] == 'raise' and
                         not r[1].model_gap() else None, shown(r))
                continue
            for v, nm, want in zip(got['b'], ('start', 'end'),
                                   (day(y0, 1, 1), day(y1, 12, 31))):
                want = kw.get(nm, want)
                c.decide('laid out', '%s has sessions %s %s' % (
                    key, 'from' if nm == 'start' else 'to', want.dt.date()),
                    site, None if isinstance(v, Top) else
                    isinstance(v, TS) and not mixed(*got['b']) and
                    v.utc() == want.dt, repr(v))
    finally:
        I.ctx['intercept'] = icept
        I.ctx['date_range'] = hook


def guard(D, n, k, y0, y1, pure, seen):
    c = D.c
    site = D.site(k, '__init__')
    mid = (y0 + y1) // 2
    # first and last sessions of the built range, and whether refused
    firsts = [(y0 - 9, True), (y0 - 1, True), (y0, False), (y0 + 1, False),
              (mid, False), (y1, False), (y1 + 1, True)]
    for fy, fbad in firsts:
        for ly, lbad in ((y0 - 1, True), (y0, False), (mid, False),
                         (y1 - 1, False), (y1, False), (y1 + 1, True),
                         (y1 + 9, True)):
            if ly < fy:
                continue
            for fm, lm in (((1, 1), (12, 31)), ((12, 31), (1, 1)),
                           ((6, 15), (6, 15))):
                a, b = day(fy, *fm), day(ly, *lm)
                if a.dt > b.dt:
                    continue
                refuse = fbad or lbad
                r = build(D, k, seen, (a, b), (), {'start': a, 'end': b})
                key = '%s with sessions from %s to %s should be %s (data ' \
                    '%d-%d)' % (n, a.dt.date(), b.dt.date(),
                                'refused' if refuse else 'built', y0, y1)
                if r[0] == '?':
                    c.dunno('guard', '%s: %s' % (key, r[1]))
                    continue
                if not refuse:
                    c.decide('guard', key, site, r[0] == 'return', shown(r))
                    continue
                if r[0] == 'return' or r[1].name() != 'ValueError':
                    c.decide('guard', key, site, False, shown(r))
                    continue
                c.ok('guard', sample=key)
                text = message(D, r[1])
                if text is None:
                    c.dunno('limit named', key)
                    continue
                c.decide('limit named', key + ', naming the limit', site,
                         n in text and
                         ((fy < y0 and str(y0) in text) or
                          (ly > y1 and str(y1) in text)
                          or (fy > y1 and str(y1) in text)
                          or (ly < y0 and str(y0) in text)), text[:120])
    if pure:
        laid_out(D, n, k, y0, y1, site)
        for args, kw, what in (
                ((), {}, 'no range'),
                ((), {'start': None, 'end': None}, 'None'),
                ((), {'start': day(mid)}, 'only a start'),
                ((), {'end': day(mid)}, 'only an end'),
                ((day(y0, 2, 1),), {}, 'a positional start'),
                ((day(y0, 2, 1), day(y1, 3, 1)), {}, 'positional')):
            r = build(D, k, seen, None, args, kw)
            key = '%s built with %s' % (n, what)
            if r[0] == '?':
                c.dunno('defaults', '%s: %s' % (key, r[1]))
                continue
            ws = kw.get('start') or (args[0] if args else None) or \
                day(y0, 1, 1)
            we = kw.get('end') or (args[1] if len(args) > 1 else None) or \
                day(y1, 12, 31)
            s, e = seen.get('start'), seen.get('end')
            if not isinstance(s, TS) or not isinstance(e, TS):
                c.decide('defaults', key, site, None if isinstance(
                    s, Top) or isinstance(e, Top) or r[0] == 'return'
                    else False, '%r %r %s' % (s, e, shown(r)))
                continue
            c.decide('defaults', key + ' spans the data', site,
                     r[0] == 'return' and
                     s.utc() == ws.dt and e.utc() == we.dt and
                     s.tz is not None and e.tz is not None,
                     '%s to %s, %s' % (s, e, shown(r)))
            # and asking for less is never widened by the data's end
    else:
        r = build(D, k, seen, (day(mid), day(mid)), (), {})
        c.decide('defaults', '%s built with no range' % n, site,
                 verdict(r, lambda v: True), shown(r))


def message(D, e):
    """rendered text of an exception, or None"""
    I = D.I
    v = e.val
    args = getattr(v, 'args', None)
    if isinstance(args, (list, tuple)) and len(args) == 1 and \
            type(args[0]) is str:
        return args[0]
    return None


def _registry_classes(D):
    """as registry(), without building"""
    D.stub = True
    try:
        cls, ali = D.registry()
    finally:
        D.stub = False
    return {n: k for n, k in cls.items() if isinstance(k, ClassVal)}, ali


Defs.registry_classes = _registry_classes


# ---------------------------------------------------------------------- C20


def some(ds):
    ds = sorted(ds)
    return ', '.join(str(d) for d in ds[:4]) + (
        ' and %d more' % (len(ds) - 4) if len(ds) > 4 else '')


def c20(known):
    D = Defs('C20', 'Closures, special hours, trading weekdays and hours of '
             'every shipped calendar are folded for 1970-2020 and compared, '
             'date by date, with the committed record of history.')
    against(D, 'history.json', 'that did not happen', 'that happened')
    return D.finish(12000, known)


def c17(known):
    D = Defs('C17', 'Closures, special hours, trading weekdays and hours of '
             'every shipped rule-based calendar are folded for 2020-2049 and '
             'compared, date by date, with the days the documented rules '
             'give.')
    against(D, 'documented.json', 'that are not documented',
            'that are documented')
    return D.finish(6000, known)


def against(D, name, extra, missing):
    c, I = D.c, D.I
    with open(os.path.join(HERE, 'data', name)) as fh:
        ref = json.load(fh)
    cals = D.shipped()
    for n, r in sorted(ref.items()):
        f = cals.get(n)
        if f is None:
            c.dunno('calendar', '%s is not registered' % n)
            continue
        k = f.cls
        lo = dtm.datetime.fromisoformat(r['from'])
        hi = dtm.datetime.fromisoformat(r['to'])
        g = history.record(I, f, lo, hi)
        if isinstance(g, Top):
            c.dunno('calendar', '%s: %s' % (n, g.why))
            continue
        c.decide('weekdays', '%s trades on weekdays %s' % (n, r['weekdays']),
                 D.site(k, 'weekmask'), g['weekdays'] == r['weekdays'],
                 g['weekdays'])
        c.decide('offsets', '%s day offsets of open and close' % n,
                 D.site(k, 'open_offset'), g['offsets'] == r['offsets'],
                 '%s, was %s' % (g['offsets'], r['offsets']))
        c.decide('hours', '%s regular hours' % n, D.site(k, 'open_times'),
                 g['hours'] == r['hours'], differ(g['hours'], r['hours']))
        for part, what, mem in (
                ('closed', 'closures', 'regular_holidays'),
                ('late', 'late opens', 'special_opens'),
                ('early', 'early closes', 'special_closes')):
            a, b = history.unpack(g[part]), history.unpack(r[part])
            new = [d for d in a if d not in b]
            gone = [d for d in b if d not in a]
            other = [d for d in a if d in b and a[d] != b[d]]
            site = D.site(k, mem)
            if new:
                c.fail(what, '%s has %s %s' % (n, what, extra),
                       culprit(D, f, mem, new[0]) or site, some(new))
            if gone:
                c.fail(what, '%s lacks %s %s' % (n, what, missing), site,
                       some(gone))
            if other:
                c.fail(what, '%s has other times of %s' % (n, what), site,
                       ', '.join('%s %s was %s' % (d, a[d], b[d])
                                 for d in sorted(other)[:3]))
            c.ok(what, len(b) - len(gone) - len(other), '%s: %d' % (
                n, len(b)))


def differ(a, b):
    return 'from %s, were from %s' % (
        [x for x in a if x not in b][:2], [x for x in b if x not in a][:2])


def culprit(D, f, mem, d):
    """site of the rule of regular_holidays that closes date d"""
    v = f.get(mem)
    rules = v.d.get('rules') if isinstance(v, InstVal) else None
    day = dtm.datetime(d.year, d.month, d.day)
    it = D.I.iterate(rules) if rules is not None else None
    for r in it if isinstance(it, list) else []:
        s = r.compute(D.I, day, day) if isinstance(r, HolidayVal) else None
        if isinstance(s, list) and day in s:
            return '%s rule %r' % (born(r), r.name)
    return None
