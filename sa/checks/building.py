"""C09-C11: how the schedule is put together, decided by interpreting the
calendar constructor over abstract eras, special days and session sets."""
import functools

from ..core import Top, ListVal, AnalysisError, PyExc, Undecided
from ..pdconst import UTCZ, NaTVal, CBD, NAT
from .. import calmodel, sched
from ..calmodel import Cal, RuleCal, atom, LOCAL
from ..sched import (T, World, VArr, SArr, LABEL, OPEN, BS, BE, CLOSE, SOPEN,
                     SCLOSE, NONLAB, NN, KK, JJ, MIN, ladd, lsub, lcmp, tcmp,
                     Shifted, NDArr)
from .queries import (Ctx, modules, raises, ret, fix, is_column, exc_is)

K2 = ladd(KK, KK)
EDGE = 'late open or early close of an end session dropped: its UTC time ' \
    'is outside the midnights of the range'
N1 = ladd(NN, -1)


def build(X, w, over, start=None, end=None, need=True):
    c = Cal(modules(), w, **over)
    c.seeded = False
    o = c.build(start, end)
    return c, o


def cell(cal, nm, s):
    return cal.query(nm, T(s, LABEL))


COLS = (('session_open', 'open_times', OPEN),
        ('session_close', 'close_times', CLOSE),
        ('session_break_start', 'break_start_times', BS),
        ('session_break_end', 'break_end_times', BE))


def src_ok(o, s, want):
    """want: (atom, day offset, zone)"""
    if o.kind == 'raise':
        return False
    v = o.value
    if isinstance(v, (Shifted, NaTVal)):
        return False
    if not isinstance(v, T):
        return None
    if v.tz != UTCZ or v.form != 'ts':
        return False
    if v.src is None:
        # midnight of a day, whatever time is listed
        return False if v.slot in (LABEL, NONLAB) else None
    return v.s == s and v.off == 0 and v.src[0] is want[0] and \
        v.src[1] == want[1] and v.src[2] == want[2]


def check_src(X, cal, nm, key, s, want):
    outs = cell(cal, nm, s)
    det = ''
    for o in outs:
        if o.kind == 'return' and isinstance(o.value, T) and o.value.src:
            det = ' got %s%+d days in %s' % (o.value.src[0], o.value.src[1],
                                             o.value.src[2])
    X.ask(cal, nm, '%s of session %r should be %r%+d days in %s%s (%s)' % (
        nm, s, want[0], want[1], want[2], det, key), outs,
        lambda o: src_ok(o, s, want), nm)


def era_reps(ks, n):
    out = [0, 1, JJ, N1, ladd(NN, -2)] if n == NN else list(range(n))
    for k in ks:
        if n == NN:
            out += [ladd(k, -1), k, ladd(k, 1)]
    res = []
    for p in out:
        if lcmp(p, 0) >= 0 and lcmp(p, n) < 0 and p not in res:
            res.append(p)
    return res


def ntime(s, slot=LABEL):
    return T(s, slot, 0, 'ts', None)


def first_of(t):
    return t.s if t.slot == LABEL else ladd(t.s, 1)


def c09(known):
    X = Ctx('C09', 'The constructor is interpreted with opaque listed times '
            'per column and era; each session\'s cell must derive from the '
            'listed time of its own column and era, the column\'s day offset '
            'and the calendar\'s zone, localised and then converted to UTC.')
    scen = []
    # (description, world size, era starts)
    for n, eras in ((NN, []), (NN, [ntime(KK)]), (NN, [ntime(KK, NONLAB)]),
                    (NN, [ntime(KK), ntime(K2)]),
                    (NN, [ntime(KK, NONLAB), ntime(K2)]),
                    (NN, [ntime(0)]), (NN, [ntime(N1)]),
                    (NN, [ntime(-1, NONLAB)]), (NN, [ntime(N1, NONLAB)]),
                    (1, [ntime(0)]), (3, [ntime(1), ntime(2)])):
        scen.append((n, eras))
    failed = 0
    for n, eras in scen:
        for oo, co in ((0, 0), (-1, 1), (0, -1)):
            if n == NN and len(eras) == 1 and eras[0].s not in (KK,) and oo:
                continue
            for vary in (None, 'open_times', 'close_times',
                         'break_start_times', 'break_end_times'):
                if vary and (len(eras) != 1 or eras[0].s != KK or oo == 0):
                    continue
                w = World(n, 'all')
                over, atoms = {'open_offset': oo, 'close_offset': co}, {}
                for nm, prop, slot in COLS:
                    es = [None] + (eras if vary in (None, prop) else [])
                    ats = [atom('%s era %d' % (prop[:-6], i), slot)
                           for i in range(len(es))]
                    atoms[prop] = (ats, es)
                    over[prop] = tuple(zip(es, ats))
                del sched.WRONG[:]
                cal, o = build(X, w, over)
                key = 'eras from %s, offsets %d/%d' % (eras or 'start', oo,
                                                       co)
                if o.soft and sched.WRONG:
                    X.c.fail('time of day', 'building with %s uses the listed '
                             'times' % key, cal.site('__init__'),
                             'used %r' % sched.WRONG[0])
                    continue
                if o.kind != 'return' or o.soft:
                    X.c.paths('construct', 'building with %s' % key,
                              cal.site('__init__'), [o],
                              lambda o: False if o.kind == 'raise' and
                              not o.value.model_gap() else None)
                    continue
                cal.need(*[c[0] for c in COLS])
                for nm, prop, slot in COLS:
                    ats, es = atoms[prop]
                    off = oo if slot == OPEN else co if slot == CLOSE else 0
                    for s in era_reps([e.s for e in es if e is not None], n):
                        i = 0
                        for j, e in enumerate(es):
                            if e is not None and lcmp(first_of(e), s) <= 0:
                                i = j
                        check_src(X, cal, nm, key, s, (ats[i], off, LOCAL))
                X.done(cal)
    unpaired(X)
    return X.finish(300, known)


def unpaired(X):
    """break starts without break ends, or the reverse, are refused"""
    for n in (NN, 1, 2, 3):
        for gone in ('break_start_times', 'break_end_times'):
            for special in (False, True):
                if special and n == 1:
                    continue         # the early close leaves no break
                w = World(n, 'all')
                over = {gone: None}
                if special:
                    over['special_closes'] = ListLater(
                        [(atom('early', SCLOSE), rule('early', [ntime(0)]))])
                cal, o = build2(w, over)
                X.c.paths(
                    'unpaired breaks', 'a calendar of %r sessions%s with no '
                    '%s should be refused with ValueError' % (
                        n, ', the first closing early,' if special else '',
                        gone.replace('_', ' ')), cal.site('__init__'),
                    [o], lambda o: raises(o, 'ValueError'))
                X.done(cal)


# ------------------------------------------------------------------- C10


def rule(name, ds):
    return RuleCal(name, [ntime(s) if not isinstance(s, T) else s
                          for s in ds])


def c10(known):
    X = Ctx('C10', 'The constructor is interpreted with late opens and early '
            'closes (by rule and ad hoc) on the first, an interior and the '
            'last session and outside the range; each cell, break, and the '
            'listings must show exactly those.')
    for w in (World(NN, 'all'), World(NN, 'none'),
              World(NN, 'none', east=True), World(NN, 'all', east=True),
              World(3, 'all'), World(1, 'none'), World(2, 'none')):
        sched._W[0] = w
        n = w.n
        last = ladd(n, -1)
        if n == NN:
            base = [0, 1, KK, ladd(KK, 1), ladd(n, -2), last]
            # scenario: which sessions are special, by which listing
            scs = [dict(rule=[0, KK, last], adhoc=[]),
                   dict(rule=[], adhoc=[0, KK, last]),
                   dict(rule=[last], adhoc=[KK]),
                   dict(rule=[KK], adhoc=[0, last]),
                   dict(rule=[1], rule2=[KK], adhoc=[ladd(n, -2)]),
                   dict(rule=[ladd(KK, 1), last], rule2=[0],
                        adhoc=[KK], adhoc2=[1]),
                   dict(rule=[ladd(KK, 1)], rule2=[1], rule3=[KK],
                        rule4=[ladd(n, -2)], adhoc=[]),
                   dict(rule=[], adhoc=[KK], adhoc2=[1],
                        adhoc3=[ladd(n, -2)], adhoc4=[ladd(KK, 1)])]
        else:
            base = list(range(n))
            scs = [dict(rule=[last], adhoc=[]), dict(rule=[], adhoc=[last]),
                   dict(rule=[0], adhoc=[])]
        outside = [T(-1, NONLAB, 0, 'ts', None), T(last, NONLAB, 0, 'ts',
                                                   None)]
        # ordinary, plus ranges whose ends are not sessions
        lims = [(None, None)]
        if not isinstance(n, int):
            lims.append((T(-1, NONLAB), T(last, NONLAB)))
        for sc in scs:
            for which in ('opens', 'closes', 'both'):
                for lim in lims:
                    for extra in ((), outside):
                        if extra and lim[0] is not None:
                            continue
                        c10_one(X, w, base, sc, which, lim, extra)
    # a special day that is not a session
    w = World(NN, 'all')
    sched._W[0] = w
    for which, slot in (('opens', SOPEN), ('closes', SCLOSE)):
        for how in ('rule', 'adhoc'):
            a = atom('special', slot)
            bad = ntime(KK, NONLAB)
            over = {}
            if how == 'rule':
                over['special_' + which] = ListLater([(a, rule('r', [bad]))])
            else:
                over['special_%s_adhoc' % which] = ListLater(
                    [(a, ListLater([bad]))])
            cal, o = build2(w, over)
            X.c.paths('not a session', 'special %s (%s) on a non-session '
                      'should raise' % (which, how), cal.site('__init__'),
                      [o], lambda o: raises(o) if o.kind == 'raise' else
                      (None if o.soft else False))
            X.done(cal)
    return X.finish(400, known)


class ListLater(object):
    """list to be allocated in the analysed heap"""

    def __init__(self, items):
        self.items = items

    def make(self, I):
        return ListVal(I, [deep(I, x) for x in self.items])


def deep(I, v):
    if isinstance(v, ListLater):
        return v.make(I)
    if isinstance(v, tuple):
        return tuple(deep(I, x) for x in v)
    return v


def build2(w, over, start=None, end=None):
    c = Cal(modules(), w)
    c.seeded = False
    for k, v in over.items():
        c.cls.d[k] = deep(c.I, v)
    return c, c.build(start, end)


LISTS = [a + b for a in ('rule', 'adhoc') for b in ('', '2', '3', '4')]


def c10_one(X, w, base, sc, which, lim, extra):
    want = {'opens': {}, 'closes': {}}
    over = {}
    for kind, slot in (('opens', SOPEN), ('closes', SCLOSE)):
        if which not in (kind, 'both'):
            continue
        reg, adh = [], []
        for lst in LISTS:
            if lst not in sc:
                continue
            ss = sc[lst]
            if which == 'both' and kind == 'opens' and lst == 'adhoc':
                ss = ss[:1]
            a = atom('%s %s' % (kind, lst), slot)
            for s in ss:
                want[kind][s] = a
            ds = [ntime(s) for s in ss]
            if lst.startswith('rule'):
                reg.append((a, rule(lst, ds + list(extra))))
            else:
                adh.append((a, ListLater(ds + list(extra))))
        over['special_' + kind] = ListLater(reg)
        over['special_%s_adhoc' % kind] = ListLater(adh)
    del sched.WRONG[:]
    cal, o = build2(w, over, lim[0], lim[1])
    key = 'special %s %s%s%s' % (which, sc, ' outside days' if extra else '',
                                 ' open range' if lim[0] else '')
    if o.soft and sched.WRONG:
        X.c.fail('time of day', 'building with %s uses the listed times' %
                 key, cal.site('__init__'), 'used %r' % sched.WRONG[0])
        return
    if o.kind != 'return' or o.soft:
        X.c.paths('construct', 'building with %s [%s]' % (key, w),
                  cal.site('__init__'), [o],
                  lambda o: False if o.kind == 'raise' and
                  not o.value.model_gap() else None)
        return
    cal.need('session_open', 'session_close', 'late_opens', 'early_closes')
    # what the range filter on the special times (a known finding) leaves
    lo = lim[0] if lim[0] is not None else cal.start
    hi = lim[1] if lim[1] is not None else cal.end
    alt = {}
    for kind, slot in (('opens', SOPEN), ('closes', SCLOSE)):
        alt[kind] = {s: a for s, a in want[kind].items()
                     if tcmp(T(s, slot), lo) >= 0 and
                     tcmp(T(s, slot), hi) <= 0}

    def ask(nm, text, outs, mk, wnt, other):
        """mk(expectation) -> matcher"""
        if wnt != other:
            good, edge = mk(wnt), mk(other)
            if all(o.kind != 'undecided' and edge(o) is True for o in outs) \
                    and any(good(o) is False for o in outs):
                return X.c.fail(nm, EDGE, cal.site('__init__'),
                                '%s [%s]' % (text(wnt), w))
        X.ask(cal, nm, '%s (%s)' % (text(wnt), key), outs, mk(wnt), nm)

    for s in base:
        for kind, nm, reg in (('opens', 'session_open', 'open'),
                              ('closes', 'session_close', 'close')):
            a, b = (m[kind].get(s, cal.atoms[reg]) for m in (want, alt))
            ask(nm, lambda v, s=s, nm=nm: '%s of session %r should be %r'
                % (nm, s, v), cell(cal, nm, s),
                lambda v, s=s: lambda o: src_ok(o, s, (v, 0, LOCAL)), a, b)
        if w.breaks == 'all':
            gone, gone2 = (s in m['closes'] for m in (want, alt))
            if s in want['opens'] and not gone:
                continue

            def mk(gone):
                def match(o):
                    if o.kind == 'raise':
                        return False
                    if isinstance(o.value, NaTVal):
                        return gone
                    return (not gone) if isinstance(o.value, T) else None
                return match
            for nm in ('session_break_start', 'session_break_end'):
                ask(nm, lambda v, s=s, nm=nm: '%s of session %r should be %s'
                    % (nm, s, 'absent' if v else 'kept'), cell(cal, nm, s),
                    mk, gone, gone2)
    for kind, nm in (('opens', 'late_opens'), ('closes', 'early_closes')):
        ss, ss2 = (sorted(m[kind], key=functools.cmp_to_key(lcmp))
                   for m in (want, alt))

        def mk2(ss):
            def match(o):
                if o.kind == 'raise':
                    return False
                it = cal.I.iterate(o.value)
                if not isinstance(it, list) or \
                        any(not isinstance(x, T) for x in it):
                    return None
                return [x.s for x in it] == ss and \
                    all(x.slot == LABEL and x.tz == UTCZ for x in it)
            return match
        ask(nm, lambda v, nm=nm: '%s should be sessions %s' % (nm, v),
            cal.attr(nm), mk2, ss, ss2)
    X.done(cal)


# ------------------------------------------------------------------- C11


def c11(known):
    X = Ctx('C11', 'The session index must be the date range from the given '
            'start to the given end, both included, in steps of the business '
            'day made of exactly the calendar\'s weekday mask, rule holidays '
            'and ad hoc holidays.')
    for w in (World(NN), World(NN, 'none'), World(2)):
        for adh in ([], [ntime(1)], [ntime(1), ntime(KK, NONLAB)]):
            for mask in ('1111100', '0111110', '1111111'):
                for reg in (None, 'rules'):
                    over = dict(adhoc_holidays=ListLater(adh), weekmask=mask,
                                regular_holidays=rule('h', [])
                                if reg else None)
                    cal, o = build2(w, over)
                    c11_one(X, cal, o, w, cal.cls.d, mask)
    ends(X)
    X.c.extra['shipped_calendars'] = 0
    shipped(X)
    derived(X)
    return X.finish(100, known)


def ends(X):
    """the first and the last session are named as such"""
    for n in (NN, 1, 2, 3):
        w = World(n, 'none')
        last = ladd(n, -1)
        for lim in ((None, None), (T(-1, NONLAB), None),
                    (None, T(last, NONLAB)),
                    (T(-1, NONLAB), T(last, NONLAB))):
            cal, o = build2(w, {}, lim[0], lim[1])
            if o.kind != 'return' or o.soft:
                X.c.dunno('ends', 'bounds %s %s [%s]: %r' % (
                    lim[0], lim[1], w, o))
                continue
            for nm, s in (('first_session', 0), ('last_session', last),
                          ('first_trading_session', 0),
                          ('last_trading_session', last)):
                cal.need(nm)
                X.ask(cal, nm, '%s of a calendar of sessions 0 to %r built '
                      'from %s to %s' % (nm, last, lim[0] or 'the first',
                                         lim[1] or 'the last'), cal.attr(nm),
                      lambda o, s=s: False if o.kind == 'raise' else
                      (o.value == T(s, LABEL)) if isinstance(o.value, T)
                      else None, nm)
            X.done(cal)


def c11_one(X, cal, o, w, d, mask):
    I = cal.I
    site = cal.site('__init__')
    key = 'mask %s, ad hoc %d, rules %s [%s]' % (
        mask, len(d['adhoc_holidays'].items),
        'yes' if d['regular_holidays'] is not None else 'no', w)
    calls = [c for c in I.ctx.get('date_range_calls', [])
             if isinstance(c['freq'], CBD) or isinstance(c['start'], T)]
    if len(calls) != 1 or o.kind != 'return' or o.soft:
        X.c.dunno('session range', '%s: %d session range calls, %r' % (
            key, len(calls), o))
        return
    c = calls[0]
    p, f, l = c['where']
    site = '%s:%s %s' % (p, l, f)
    for nm, want in (('start', cal.start), ('end', cal.end)):
        v = c[nm]
        X.c.decide('range ' + nm, 'session range %s should be the '
                   'calendar\'s %s (%s)' % (nm, nm, key), site,
                   (v == want) if isinstance(v, T) else None, repr(v))
    X.c.decide('range closed', 'session range includes both ends (%s)' % key,
               site, True if c['closed'] is None else False
               if isinstance(c['closed'], str) else None, repr(c['closed']))
    q = c['freq']
    if not isinstance(q, CBD):
        X.c.dunno('business day', '%s: %r' % (key, q))
        return
    kw = q.kw
    m = kw['weekmask']
    X.c.decide('weekmask', 'business day uses the calendar\'s weekmask (%s)'
               % key, site, (m == mask) if isinstance(m, str) else None,
               repr(m))
    X.c.decide('n', 'business day steps by one (%s)' % key, site,
               kw['n'] == 1 if isinstance(kw['n'], int) else None,
               repr(kw['n']))
    r = kw['calendar']
    want = d['regular_holidays']
    X.c.decide('rule holidays', 'business day uses the calendar\'s rule '
               'holidays (%s)' % key, site,
               True if r is want else None if isinstance(r, Top) else False,
               repr(r))
    h = kw['holidays']
    wantl = d['adhoc_holidays'].items
    if h is None:
        v = not wantl
    else:
        it = I.iterate(h)
        v = None if not isinstance(it, list) or \
            any(isinstance(x, Top) for x in it) else \
            same_dates(it, wantl)
    X.c.decide('ad hoc holidays', 'business day uses the calendar\'s ad hoc '
               'holidays (%s)' % key, site, v, repr(h))
    outs = cal.attr('all_sessions')
    X.ask(cal, 'all_sessions', 'all_sessions is the session range (%s)' % key,
          outs, ret(lambda v: is_column(v, 0, w.n, LABEL, w, I)),
          'all_sessions')
    X.done(cal)


def same_dates(a, b):
    ka = [x.key() for x in a if isinstance(x, T)]
    if len(ka) != len(a):
        return None
    return set(ka) == set(x.key() for x in b)


def shipped(X):
    """every shipped calendar: the business day in force holds exactly the
    weekday mask, rules and ad hoc days the class declares"""
    from .. import fold
    import datetime as dtm
    from ..report import REPO
    I = fold.make_interp(REPO)
    a, b = dtm.datetime(1990, 1, 1), dtm.datetime(2025, 12, 31)
    for cls in fold.all_calendar_classes(I):
        f = fold.Facts(I, cls)
        day = f.get('day')
        reg, adh, mask = (f.get('regular_holidays'), f.get('adhoc_holidays'),
                          f.get('weekmask'))
        if isinstance(adh, Top) or isinstance(day, Top):
            if f.err.get('day') or f.err.get('adhoc_holidays'):
                continue       # abstract bases
            X.c.dunno('shipped', '%s' % f.where())
            continue
        got, why = f.closures(a, b)
        ad = fold.adhoc_set(I, adh, True)
        rs = fold.rule_set(I, reg, a, b) if reg is not None else []
        if got is None or isinstance(ad, Top) or isinstance(rs, Top):
            X.c.dunno('shipped', '%s: %s' % (f.where(), why))
            continue
        want = {d.date() for d in list(ad) + list(rs) if a <= d <= b}
        m = f.mask()
        if m is not None:
            # days that are no trading weekdays are closed either way
            got, want = [{d for d in x if m[d.weekday()]}
                         for x in (got, want)]
        X.c.decide('shipped', 'holidays in force for %s are the declared '
                   'rule and ad hoc holidays' % cls.name, f.where(),
                   got == want, 'difference %s' % sorted(got ^ want)[:5])
        X.c.decide('shipped mask', 'weekdays in force for %s are the '
                   'declared ones' % cls.name, f.where(),
                   f.mask() == fold.parse_mask(mask)
                   if f.mask() is not None else None, repr(mask))
        X.c.extra['shipped_calendars'] += 1


PROBE = """
import pandas as pd
from datetime import time
from pandas.tseries.holiday import Holiday
from pytz import UTC
from trading_calendars.trading_calendar import TradingCalendar, HolidayCalendar

RULES = HolidayCalendar([
    Holiday('one', month=1, day=1),
    Holiday('two', month=3, day=15),
    Holiday('three', month=7, day=4),
])
LISTED = ['2019-02-%%02d' %% d for d in range(1, 15)]
AWARE = [pd.Timestamp(d, tz='UTC') for d in LISTED]
NAIVE = [pd.Timestamp(d) for d in LISTED]
INDEX = pd.DatetimeIndex(LISTED)


class Probe(TradingCalendar):
    name = 'PROBE'
    tz = UTC
    open_times = ((None, time(9)),)
    close_times = ((None, time(17)),)
    weekmask = %r
    regular_holidays = %s
    adhoc_holidays = %s
"""


def derived(X):
    """calendars a user may derive: holidays on every weekday, trading weeks
    other than Monday to Friday"""
    import ast
    import datetime as dtm
    from .. import fold
    from ..core import ModuleVal
    from ..report import REPO
    a, b = dtm.datetime(2015, 1, 1), dtm.datetime(2024, 12, 31)
    listed = {dtm.date(2019, 2, d) for d in range(1, 15)}
    rules = {dtm.date(y, m, d) for y in range(2015, 2025)
             for m, d in ((1, 1), (3, 15), (7, 4))}
    I = fold.make_interp(REPO)
    n = 0
    for mask in ('1111100', '1111111', '1111001', '0000011', '1111110'):
        for reg in ('RULES', 'None'):
            for adh in ('AWARE', 'NAIVE', 'INDEX', '[]'):
                n += 1
                name = 'trading_calendars.probe%d' % n
                mod = ModuleVal(name, 'trading_calendars/(derived calendar)',
                                ast.parse(PROBE % (mask, reg, adh)), False)
                I.modules[name] = mod
                key = 'mask %s, rules %s, ad hoc %s' % (mask, reg, adh)
                try:
                    cls = I.import_module(name).env.get('Probe')
                except (PyExc, Undecided) as e:
                    X.c.dunno('derived', '%s: %s' % (key, e))
                    continue
                f = fold.Facts(I, cls)
                got, why = f.sessions(a, b)
                if got is None:
                    X.c.dunno('derived', '%s: %s' % (key, why))
                    continue
                closed = (rules if reg == 'RULES' else set()) | \
                    (listed if adh != '[]' else set())
                want, d = [], a.date()
                while d <= b.date():
                    if mask[d.weekday()] == '1' and d not in closed:
                        want.append(d)
                    d += dtm.timedelta(1)
                _, c = cls.lookup('day')
                X.c.decide('derived', 'sessions of a calendar with %s are '
                           'its trading weekdays that are no holidays' % key,
                           '%s %s.day' % (c.module.path, c.name),
                           got == want, 'difference %s' % [
                               str(x) for x in sorted(set(got) ^
                                                      set(want))[:5]])
