"""C01-C08: queries on a built calendar, decided in the order domain."""
from ..core import Top, PyExc, AnalysisError, load_package, BoundModel
from ..pdconst import UTCZ, NAT, NaTVal
from ..report import Check, REPO
from .. import calmodel, sched
from ..sched import (T, World, VArr, SArr, MArr, Grid, Pos, Count, Dur,
                     SumVal, Lin, LABEL, OPEN, M1, BS, BRK, BE, M2, CLOSE,
                     GAP, NONLAB, NN, KK, HH, JJ, MIN, ladd, lsub, lcmp, tcmp,
                     mkpos, pkey, grid_search, grid_instant, Shifted,
                     pos_diff, vec, NDArr)

ASSUME = [
    'pandas/numpy primitives (searchsorted, get_loc, slicing, negative '
    'indexing) behave as documented; they are modelled, not analysed',
    'opens, break times and closes of successive sessions are strictly '
    'increasing whole minutes (decided by C15 for shipped calendars)',
    'instants are represented by their order relative to the calendar: one '
    'representative per order class, session positions 0, 1, an interior '
    'symbolic k, n-2, n-1 of a symbolic number n of sessions, and n=1,2,3']


def modules():
    return load_package(REPO, 'trading_calendars')


def worlds(full=True):
    out = [World(NN), World(NN, 'none'), World(NN, ('only', KK)),
           World(NN, ('except', KK)), World(NN, 'none', gapless=True),
           World(1), World(2, 'none'), World(3),
           # breaks that are missing or present only at an end
           World(3, ('except', 0)), World(3, ('except', 2)),
           World(3, ('only', 0)), World(3, ('only', 2))]
    return out if full else out[:2] + [World(1), World(2)]


def sess(w):
    n = w.n
    if isinstance(n, int):
        return list(range(n))
    return [0, 1, KK, ladd(n, -2), ladd(n, -1)]


def points(w, sub=True):
    """representative instants of every order class"""
    out = []
    if not w.gapless:
        out.append(T(-1, GAP))
    out.append(T(0, OPEN, -1))
    for s in sess(w):
        out.append(T(s, OPEN))
        if sub:
            out.append(T(s, OPEN, 1))
        out.append(T(s, M1))
        if sub:
            out.append(T(s, M1, MIN // 3 + 7))
        if w.has_break(s):
            out += [T(s, BS, -MIN)] if sub else []
            out.append(T(s, BS))
            if sub:
                out.append(T(s, BS, 7))
            out.append(T(s, BRK))
            if sub:
                out.append(T(s, BE, -1))
            out += [T(s, BE), T(s, M2)]
        if sub:
            out += [T(s, CLOSE, -MIN), T(s, CLOSE, -MIN // 3 - 7)]
        out.append(T(s, CLOSE))
        if sub:
            out.append(T(s, CLOSE, 7))
        if not w.gapless:
            out.append(T(s, GAP))
        elif sub:
            out.append(sched.canon(T(s, CLOSE, MIN)))
    uniq = []
    for p in out:
        if p not in uniq:
            uniq.append(p)
    return uniq


def fix(w, f):
    old = sched._W[0]
    sched._W[0] = w
    try:
        return f()
    finally:
        sched._W[0] = old


# ---- oracle: plain definitions over the order


def next_slot(w, t, slot):
    """session of the first `slot` instant strictly after t, or None"""
    s = t.s
    c = tcmp(T(s, slot), t) if lcmp(s, 0) >= 0 else -1
    if w.gapless or True:
        x = s if c > 0 and lcmp(s, 0) >= 0 else ladd(s, 1)
    return x if lcmp(x, w.n) < 0 and lcmp(x, 0) >= 0 else None


def prev_slot(w, t, slot):
    s = t.s
    if lcmp(s, w.n) >= 0:
        return ladd(w.n, -1)
    if lcmp(s, 0) >= 0 and tcmp(T(s, slot), t) < 0:
        return s
    x = ladd(s, -1)
    return x if lcmp(x, 0) >= 0 else None


def clampg(w, p):
    end = mkpos(w.n, 0, 0)
    if pkey(p) < pkey(0):
        return 0
    if pkey(p) > pkey(end):
        return end
    return p


def next_min(w, t):
    p = clampg(w, grid_search(t, 'right'))
    return None if p == mkpos(w.n, 0, 0) else grid_instant(p, 'ts', UTCZ)


def prev_min(w, t):
    p = clampg(w, grid_search(t, 'left'))
    if p == 0 and isinstance(p, int):
        return None
    p = p - 1 if isinstance(p, int) else p.shift(-1)
    return grid_instant(p, 'ts', UTCZ)


def container(w, t):
    """session whose open..close contains t, or None"""
    s = t.s
    if lcmp(s, 0) < 0 or lcmp(s, w.n) >= 0:
        return None
    if tcmp(t, T(s, OPEN)) >= 0 and tcmp(t, T(s, CLOSE)) <= 0:
        return s
    return None


def in_break(w, t):
    s = t.s
    return w.has_break(s) and tcmp(t, T(s, BS)) > 0 and \
        tcmp(t, T(s, BE)) < 0


# ---- matching


def same_ts(v, want):
    """returned value is exactly this UTC timestamp"""
    if isinstance(v, Top):
        return None
    if isinstance(v, Shifted):
        return False
    if isinstance(v, T):
        return v.key() == want.key() and v.form == 'ts' and v.tz == UTCZ
    if isinstance(v, NaTVal) or v is None:
        return False
    return None


def raises(o, *names):
    if o.kind != 'raise':
        return None if isinstance(o.value, Top) else False
    if o.value.name() == '?':
        return None
    if not names:
        return True
    return exc_is(o.value, names)


def exc_is(e, names):
    from ..core import exc_sub, ExcVal, InstVal
    v = e.val
    for n in names:
        if isinstance(v, ExcVal):
            if exc_sub(v.path, 'builtins.' + n):
                return True
        elif isinstance(v, InstVal):
            if v.isinstance_of(None, 'builtins.' + n) is True:
                return True
    return False


class Ctx(object):
    """One check run over all worlds."""

    def __init__(self, pid, rule):
        self.c = Check(pid, rule, ASSUME)
        self.seededs = 0

    def cal(self, w, **over):
        cal = calmodel.make(modules, w, **over)
        if cal.seeded:
            self.seededs += 1
            self.c.notes.append(cal.why)
        return cal

    def ask(self, cal, kind, key, outs, match, name):
        def m(o):
            if cal.seeded and o.kind == 'raise' and \
                    o.value.name() == 'AttributeError':
                return None
            if o.kind == 'raise' and o.value.model_gap():
                # a modelled object without that attribute: gap in a model
                return None
            return match(o)
        self.c.paths(kind, '%s [%s]' % (key, cal.world), cal.site(name),
                     outs, m)

    def done(self, cal):
        for f in cal.I.called:
            self.c.functions.add(f if isinstance(f, str) else str(f))

    def finish(self, floor, known):
        self.c.extra['constructor_not_analysable_in_worlds'] = self.seededs
        if self.c.notes:
            self.c.extra['constructor_reasons'] = self.c.notes[:4]
        return self.c.finish(floor, known)


# ------------------------------------------------------------------- C01


def c01(known):
    X = Ctx('C01', 'For every order class of the query instant, the value '
            'returned by next/previous open/close/minute must be the nearest '
            'strictly later/earlier one as a UTC timestamp, and the path '
            'must raise when there is none.')
    names = ['next_open', 'next_close', 'previous_open', 'previous_close',
             'next_minute', 'previous_minute']
    for w in worlds():
        cal = X.cal(w)
        cal.need(*names)
        for t in fix(w, lambda: points(w)):
            for nm in names:
                if nm.endswith('minute'):
                    f = next_min if nm[0] == 'n' else prev_min
                    want = fix(w, lambda: f(w, t))
                else:
                    slot = OPEN if nm.endswith('open') else CLOSE
                    f = next_slot if nm[0] == 'n' else prev_slot
                    s = fix(w, lambda: f(w, t, slot))
                    want = None if s is None else T(s, slot)
                outs = cal.query(nm, t)
                if want is None:
                    match = raises
                else:
                    def match(o, want=want):
                        if o.kind == 'raise':
                            return False
                        return same_ts(o.value, want)
                X.ask(cal, nm, '%s(%r) should be %s' % (
                    nm, t, want if want is not None else 'an error'), outs,
                    match, nm)
        X.done(cal)
    return X.finish(400, known)


# ------------------------------------------------------------------- C02


def labels(w):
    return [T(s, LABEL) for s in sess(w)]


def nonlabels(w):
    out = [T(-1, NONLAB)]
    for s in sess(w):
        out += [T(s, OPEN), T(s, M1), T(s, NONLAB)]
    return out


def c02(known):
    X = Ctx('C02', 'For every order class of the label, next/previous '
            'session must be the neighbouring label, ValueError at the ends, '
            'any error for a non-session; is_session must agree.')
    for w in worlds():
        if w.gapless:
            continue
        cal = X.cal(w)
        cal.need('next_session_label', 'previous_session_label',
                 'is_session')
        for l in labels(w):
            for nm, d in (('next_session_label', 1),
                          ('previous_session_label', -1)):
                s = ladd(l.s, d)
                ok = lcmp(s, 0) >= 0 and lcmp(s, w.n) < 0
                outs = cal.query(nm, l)
                if ok:
                    def match(o, want=T(s, LABEL)):
                        return False if o.kind == 'raise' else \
                            same_ts(o.value, want)
                else:
                    def match(o):
                        return raises(o, 'ValueError')
                X.ask(cal, nm, '%s(%r) should be %s' % (
                    nm, l, T(s, LABEL) if ok else 'ValueError'), outs, match,
                    nm)
        for l in nonlabels(w):
            for nm in ('next_session_label', 'previous_session_label'):
                X.ask(cal, nm, '%s(%r), not a session, should raise' % (
                    nm, l), cal.query(nm, l), raises, nm)
        for l, want in [(x, True) for x in labels(w)] + \
                [(x, False) for x in nonlabels(w)]:
            def match(o, want=want):
                if o.kind == 'raise':
                    return False
                return o.value is want if isinstance(o.value, bool) else None
            X.ask(cal, 'is_session', 'is_session(%r) should be %s' % (
                l, want), cal.query('is_session', l), match, 'is_session')
        for nm, want in (('first_session', T(0, LABEL)),
                         ('last_session', T(ladd(w.n, -1), LABEL)),
                         ('first_trading_session', T(0, LABEL)),
                         ('last_trading_session', T(ladd(w.n, -1), LABEL))):
            if cal.has(nm):
                X.ask(cal, 'ends', '%s should be %r' % (nm, want),
                      cal.attr(nm), lambda o, want=want: False
                      if o.kind == 'raise' else same_ts(o.value, want), nm)
        X.done(cal)
    return X.finish(120, known)


# ------------------------------------------------------------------- C03


def c03(known):
    X = Ctx('C03', 'For every order class of the instant, as timestamp and '
            'as nanoseconds, with and without breaks ignored, the returned '
            'boolean must equal: inside one session, and not strictly inside '
            'its break.')
    for w in worlds():
        cal = X.cal(w)
        cal.need('is_open_on_minute')
        for t in fix(w, lambda: points(w)):
            inside = container(w, t) is not None
            for form in ('ts', 'ns'):
                q = t if form == 'ts' else t.w_raw(form='ns', tz=None)
                for kw in ({}, {'ignore_breaks': False},
                           {'ignore_breaks': True}):
                    want = inside and (kw.get('ignore_breaks', False) or
                                       not in_break(w, t))

                    def match(o, want=want):
                        if o.kind == 'raise':
                            return False
                        v = o.value
                        return v is want if isinstance(v, bool) else \
                            False if v is None else None
                    X.ask(cal, 'is_open_on_minute',
                          'is_open_on_minute(%r%s) should be %s' % (
                              q, ', ignore_breaks=%s' % kw['ignore_breaks']
                              if kw else '', want),
                          cal.query('is_open_on_minute', q, **kw), match,
                          'is_open_on_minute')
        X.done(cal)
    return X.finish(400, known)


# ------------------------------------------------------------------- C04


def c04_want(w, t, mode):
    """('label', s) | 'ValueError' | 'error'"""
    s = container(w, t)
    if mode == 'next':
        if s is not None:
            return ('label', s)
        x = next_slot(w, t, CLOSE)
        return ('label', x) if x is not None else 'error'
    if mode == 'previous':
        if s is not None:
            return ('label', s)
        x = prev_slot(w, t, OPEN)
        return ('label', x) if x is not None else 'error'
    if mode == 'none':
        if s is not None and not in_break(w, t):
            return ('label', s)
        return 'ValueError' if next_slot(w, t, CLOSE) is not None \
            else 'error'
    return 'ValueError' if s is not None else 'error'


def c04_match(want):
    if want == 'error':
        return raises
    if want == 'ValueError':
        return lambda o: raises(o, 'ValueError')

    def match(o):
        return False if o.kind == 'raise' else same_ts(o.value,
                                                       T(want[1], LABEL))
    return match


def c04(known):
    X = Ctx('C04', 'For every order class of the minute and every direction '
            'the label must be the containing session, else the one the '
            'direction asks for, else an error; the same holds after every '
            'other single lookup (memo state).')
    nm = 'minute_to_session_label'
    for w in worlds():
        cal = X.cal(w)
        cal.need(nm)
        pts = fix(w, lambda: points(w))
        for t in pts:
            for form in ('ts', 'ns'):
                q = t if form == 'ts' else t.w_raw(form='ns', tz=None)
                for mode in ('next', 'previous', 'none', 'sideways'):
                    want = fix(w, lambda: c04_want(w, t, mode))
                    X.ask(cal, nm, '%s(%r, %r) should be %s' % (
                        nm, q, mode, want), cal.query(nm, q, mode),
                        c04_match(want), nm)
                if form == 'ts':
                    want = fix(w, lambda: c04_want(w, t, 'next'))
                    X.ask(cal, nm, '%s(%r) should be %s' % (nm, q, want),
                          cal.query(nm, q), c04_match(want), nm)
        X.done(cal)
    # history: the answer after one earlier lookup
    for w in (World(NN), World(2, 'none')):
        cal = X.cal(w)
        I = cal.I
        pts = fix(w, lambda: points(w, False))
        sel = [p for p in pts if w.n != NN or
               p.s in (0, KK, ladd(NN, -1), -1)]
        forms = [lambda t: t, lambda t: t.w_raw(form='ns', tz=None)]
        for a in sel:
            for b in sel:
                for fa, fb in ((0, 0), (0, 1), (1, 0)):
                    qa, qb = forms[fa](a), forms[fb](b)
                    for ma, mb in (('next', 'next'), ('next', 'previous'),
                                   ('previous', 'next'), ('none', 'next'),
                                   ('next', 'none')):
                        if (fa or fb) and (ma, mb) != ('next', 'next'):
                            continue
                        want = fix(w, lambda: c04_want(w, b, mb))

                        def run():
                            m = I.getattr(cal.inst, nm)
                            try:
                                I.call(m, [qa, ma])
                            except PyExc:
                                pass
                            return I.call(m, [qb, mb])
                        X.ask(cal, 'history', '%s(%r, %r) after (%r, %r) '
                              'should be %s' % (nm, qb, mb, qa, ma, want),
                              cal.seqrun(run), c04_match(want), nm)
        X.done(cal)
    return X.finish(800, known)


# ------------------------------------------------------------------- C05


def c05(known):
    X = Ctx('C05', 'For every ordered vector of minutes (each order class '
            'once, pairs and triples) the labels must be the containing '
            'sessions element by element; any outside element or disorder '
            'must raise.')
    nm = 'minute_index_to_session_labels'
    for w in worlds():
        cal = X.cal(w)
        cal.need(nm)
        I = cal.I
        pts = fix(w, lambda: points(w))
        ins = [p for p in pts if container(w, p) is not None]
        outp = [p for p in pts if container(w, p) is None]

        def run(vec_, want, cont='idx'):
            if cont == 'idx':
                v = VArr(I, vec_, 'idx', 'ts', UTCZ)
            else:
                v = VArr(I, vec_, 'series', 'ts', UTCZ,
                         VArr(I, list(range(len(vec_))), 'idx'))
            o = cal.query(nm, v)

            def match(o):
                if want == 'raise':
                    return raises(o)
                if o.kind == 'raise':
                    return False
                r = o.value
                if isinstance(r, SArr):
                    r = r.iter(I)
                    if not isinstance(r, list):
                        return None
                elif isinstance(r, NDArr):
                    r = r.items()
                else:
                    return None
                if len(r) != len(want):
                    return False
                rs = [same_ts(x, y) for x, y in zip(r, want)]
                return False if False in rs else None if None in rs else True
            X.ask(cal, 'vector', '%s(%r) should be %s' % (nm, vec_, want), o,
                  match, nm)
        run(ins, [T(p.s, LABEL) for p in ins])
        run(ins, [T(p.s, LABEL) for p in ins], 'series')
        run([], [])
        for p in ins:
            run([p], [T(p.s, LABEL)])
        for p in outp:
            run([p], 'raise')
        srt = pts
        for i, p in enumerate(outp):
            j = srt.index(p)
            before = [x for x in srt[:j] if container(w, x) is not None]
            after = [x for x in srt[j:] if container(w, x) is not None]
            if before:
                run([before[-1], p], 'raise')
            if after:
                run([p, after[0]], 'raise')
            if before and after:
                run([before[0], p, after[-1]], 'raise')
        for a, b in zip(ins, ins[1:]):
            run([b, a], 'raise')
            run([a, a, b], [T(a.s, LABEL), T(a.s, LABEL), T(b.s, LABEL)])
        X.done(cal)
    return X.finish(250, known)


# ------------------------------------------------------------------- C06


def expect_grid(w, a, b):
    """grid positions [lo, hi) of minutes on or between a and b"""
    lo = clampg(w, grid_search(a, 'left'))
    hi = clampg(w, grid_search(b, 'right'))
    if pkey(hi) < pkey(lo):
        hi = lo
    return lo, hi


def is_minutes(v, lo, hi):
    if isinstance(v, Top):
        return None
    if isinstance(v, VArr):
        if lo == hi:
            return not v.items()
        return None
    if isinstance(v, Grid):
        return None if v.dom is None and not v.pieces else False
    if not isinstance(v, MArr):
        return None
    if v.form != 'ts' or v.tz != UTCZ or v.cont != 'idx':
        return False
    if pkey(lo) == pkey(hi):
        return pkey(v.lo) == pkey(v.hi)
    return pkey(v.lo) == pkey(lo) and pkey(v.hi) == pkey(hi)


def is_runs(v, first, last, lo, hi):
    """v holds, session by session from first to last, the minutes from
    position lo(session) to position hi(session)"""
    if isinstance(v, Top):
        return None
    if isinstance(v, MArr):
        if v.form != 'ts' or v.tz != UTCZ or v.cont != 'idx':
            return False
        if first == last:
            return is_minutes(v, lo(first), hi(first))
        # one unbroken run cannot have the gaps between the sessions
        return False
    if not isinstance(v, Grid) or not v.pieces or \
            v.form != 'ts' or v.cont != 'idx':
        return None
    if v.tz != UTCZ:
        return False
    if v.dom is not None:
        if v.dom[0] != 'sess' or v.dom[1] != first or \
                v.dom[2] != ladd(last, 1):
            return None
        want = [(lo(g), hi(g)) for g in [ladd(first, JJ)]]
    else:
        n = lsub(last, first)
        if not isinstance(n, int):
            return None
        want = [(lo(ladd(first, i)), hi(ladd(first, i)))
                for i in range(n + 1)]
    got = []
    for x in v.pieces:
        sp = sched.piece_span(x, None)
        if sp is None:
            return None
        if got and pkey(got[-1][1]) == pkey(sp[0]):
            got[-1] = (got[-1][0], sp[1])
        else:
            got.append(sp)
    return [(pkey(a), pkey(b)) for a, b in got] == \
        [(pkey(a), pkey(b)) for a, b in want]


def is_column(v, lo, hi, slot, w, I):
    """v holds exactly slot(lo..hi-1) as UTC timestamps"""
    if isinstance(v, Top):
        return None
    if isinstance(v, VArr):
        want = sched.seq_over(lo, hi, lambda p: T(p, slot))
        if not isinstance(want, list):
            return None
        got = v.items()
        if len(got) != len(want):
            return False
        rs = [same_ts(x, y) for x, y in zip(got, want)]
        return False if False in rs else None if None in rs else True
    if not isinstance(v, SArr):
        return None
    if lcmp(hi, lo) <= 0:
        return lcmp(v.hi, v.lo) <= 0
    if lcmp(lsub(v.hi, v.lo), lsub(hi, lo)):
        return False
    d = lsub(v.lo, lo)
    reps = [p for p in w.reps() if lcmp(p, lo) >= 0 and lcmp(p, hi) < 0]
    for x in (lo, ladd(hi, -1)):
        if x not in reps:
            reps.append(x)
    und = False
    for p in reps:
        r = same_ts(v.at(I, ladd(p, d)), T(p, slot))
        if r is False:
            return False
        if r is None:
            und = True
        if v.cont == 'series' and v.index is not None:
            r = same_ts(v.index.at(I, ladd(v.index.lo, lsub(p, lo))),
                        T(p, LABEL))
            if r is False:
                return False
    return None if und else True


def ret(f):
    return lambda o: False if o.kind == 'raise' else f(o.value)


def label_bounds(w):
    out = [T(-1, NONLAB)]
    for s in sess(w):
        out += [T(s, LABEL), T(s, NONLAB)]
    return out


def label_range(w, a, b):
    lo = a.s if a.slot == LABEL else ladd(a.s, 1)
    hi = ladd(b.s, 1)
    if lcmp(hi, lo) < 0:
        hi = lo
    return lo, hi


def c06(known):
    X = Ctx('C06', 'For every pair of order classes of the bounds, the '
            'result must be the exact contiguous part of the calendar on or '
            'between them (column or minute-grid interval).')
    for w in worlds():
        if w.gapless:
            continue
        cal = X.cal(w)
        I = cal.I
        cal.need('sessions_in_range', 'minutes_in_range',
                 'minutes_for_session', 'minutes_for_sessions_in_range',
                 'session_opens_in_range', 'session_closes_in_range',
                 'execution_minutes_for_session',
                 'execution_minutes_for_sessions_in_range', 'session_open',
                 'session_close', 'open_and_close_for_session')
        lb = label_bounds(w)
        for a in lb:
            for b in lb:
                lo, hi = label_range(w, a, b)
                for nm, slot in (('sessions_in_range', LABEL),
                                 ('session_opens_in_range', OPEN),
                                 ('session_closes_in_range', CLOSE)):
                    X.ask(cal, nm, '%s(%r, %r) should be sessions [%r:%r)' % (
                        nm, a, b, lo, hi), cal.query(nm, a, b),
                        ret(lambda v: is_column(v, lo, hi, slot, w, I)), nm)
        pts = fix(w, lambda: points(w))
        if w.n == NN:
            pts = [p for p in pts if p.s in (-1, 0, KK, ladd(NN, -1))]
        nm = 'minutes_in_range'
        for a in pts:
            for b in pts:
                lo, hi = fix(w, lambda: expect_grid(w, a, b))
                X.ask(cal, nm, '%s(%r, %r) should be minutes [%r:%r)' % (
                    nm, a, b, lo, hi), cal.query(nm, a, b),
                    ret(lambda v: is_minutes(v, lo, hi)), nm)
        ls = labels(w)
        for l in ls:
            s = l.s
            lo, hi = mkpos(s, 0, 0), mkpos(ladd(s, 1), 0, 0)
            for nm in ('minutes_for_session',
                       'execution_minutes_for_session'):
                X.ask(cal, nm, '%s(%r) should be the session\'s minutes' % (
                    nm, l), cal.query(nm, l),
                    ret(lambda v: is_minutes(v, lo, hi)), nm)
            for nm, slot in (('session_open', OPEN), ('session_close',
                                                      CLOSE)):
                X.ask(cal, nm, '%s(%r)' % (nm, l), cal.query(nm, l),
                      ret(lambda v: same_ts(v, T(s, slot))), nm)
            for nm, slot in (('session_break_start', BS),
                             ('session_break_end', BE)):
                if not cal.has(nm):
                    continue

                def m(v, slot=slot):
                    if w.has_break(s):
                        return same_ts(v, T(s, slot))
                    return True if isinstance(v, NaTVal) else \
                        False if isinstance(v, T) else None
                X.ask(cal, nm, '%s(%r)' % (nm, l), cal.query(nm, l),
                      ret(m), nm)
            for nm, sl in (('open_and_close_for_session', (OPEN, CLOSE)),
                           ('break_start_and_end_for_session', (BS, BE))):
                if not cal.has(nm) or (sl[0] == BS and not w.has_break(s)):
                    continue

                def m(v, sl=sl):
                    if isinstance(v, Top):
                        return None
                    it = I.iterate(v)
                    if not isinstance(it, list):
                        return None
                    if len(it) != 2:
                        return False
                    rs = [same_ts(x, T(s, y)) for x, y in zip(it, sl)]
                    return False if False in rs else \
                        None if None in rs else True
                X.ask(cal, nm, '%s(%r)' % (nm, l), cal.query(nm, l),
                      ret(m), nm)
            for l2 in ls:
                if lcmp(l2.s, s) < 0:
                    continue
                h2 = mkpos(ladd(l2.s, 1), 0, 0)
                for nm in ('minutes_for_sessions_in_range',
                           'execution_minutes_for_sessions_in_range'):
                    X.ask(cal, nm, '%s(%r, %r) should be minutes [%r:%r)' % (
                        nm, l, l2, lo, h2), cal.query(nm, l, l2),
                        ret(lambda v: is_minutes(v, lo, h2)), nm)
        for nm, slot in (('opens', OPEN), ('closes', CLOSE),
                         ('all_sessions', LABEL)):
            if not cal.has(nm):
                continue

            def m(v, slot=slot):
                if isinstance(v, SArr) and v.tz is None:
                    v = v.new(tz=UTCZ)
                return is_column(v, 0, w.n, slot, w, I)
            X.ask(cal, nm, nm, cal.attr(nm), ret(m), nm)
        for l in [T(-1, NONLAB), T(0, NONLAB), T(ladd(w.n, -1), NONLAB)]:
            for nm in ('minutes_for_session', 'session_open',
                       'session_close'):
                X.ask(cal, nm, '%s(%r), not a session, should raise' % (
                    nm, l), cal.query(nm, l), raises, nm)
        X.done(cal)

    # execution hooks of a subclass decide the first and last minute
    def hook(to):
        def f(I, x):
            if isinstance(x, T) and x.slot in (OPEN, CLOSE):
                return x.w_raw(slot=to)
            return Top('execution hook')
        return BoundModel(Top('hook'), 'execution hook', f)
    for w in (World(NN), World(NN, 'none'), World(2)):
        if w.breaks == 'none':
            a, b, pa, pb = M1, CLOSE, (1, 0), None
        else:
            a, b, pa, pb = M1, M2, (1, 0), (3, 1)
        cal = X.cal(w, execution_time_from_open=hook(a),
                    execution_time_from_close=hook(b))
        for l in labels(w):
            s = l.s
            lo = mkpos(s, *pa)
            hi = mkpos(s, *pb) if pb else mkpos(ladd(s, 1), 0, 0)
            nm = 'execution_minutes_for_session'
            X.ask(cal, nm, '%s(%r) with custom execution times' % (nm, l),
                  cal.query(nm, l), ret(lambda v: is_minutes(v, lo, hi)), nm)

        def first(s):
            return mkpos(s, *pa)

        def last(s):
            return mkpos(s, *pb) if pb else mkpos(ladd(s, 1), 0, 0)
        nm = 'execution_minutes_for_sessions_in_range'
        for l in labels(w):
            for l2 in labels(w):
                if sched.lcmp(l.s, l2.s) > 0:
                    continue
                X.ask(cal, nm, '%s(%r, %r) with custom execution times '
                      'should be the execution minutes of each session' % (
                          nm, l, l2), cal.query(nm, l, l2),
                      ret(lambda v: is_runs(v, l.s, l2.s, first, last)), nm)
        X.done(cal)
    return X.finish(1500, known)


# ------------------------------------------------------------------- C07


def c07(known):
    X = Ctx('C07', 'For every start class and every small, interior and '
            'beyond-the-edge count the window must be the exact interval cut '
            'at the calendar edge; distances must be the signed count of '
            'sessions on or between the labels.')
    counts = [0, 1, -1, 2, -2, 3, -3, 5, -5, HH, lsub(0, HH)]
    for w in worlds():
        if w.gapless:
            continue
        cal = X.cal(w)
        I = cal.I
        cal.need('sessions_window', 'minutes_window', 'session_distance')
        n = w.n
        sl = sess(w)
        if not isinstance(n, int):
            sl = [0, 1, 2, 3, KK, ladd(n, -3), ladd(n, -2), ladd(n, -1)]
        for s in sl:
            for N in counts:
                e = ladd(s, N)
                lo, hi = (s, ladd(e, 1)) if lcmp(N, 0) >= 0 else \
                    (e, ladd(s, 1))
                lo = lo if lcmp(lo, 0) >= 0 else 0
                hi = hi if lcmp(hi, n) <= 0 else n
                nm = 'sessions_window'
                X.ask(cal, nm, '%s(%r, %r) should be sessions [%r:%r)' % (
                    nm, T(s, LABEL), N, lo, hi),
                    cal.query(nm, T(s, LABEL), N),
                    ret(lambda v: is_column(v, lo, hi, LABEL, w, I)), nm)
        for l in (T(-1, NONLAB), T(0, NONLAB), T(ladd(n, -1), NONLAB)):
            nm = 'sessions_window'
            X.ask(cal, nm, '%s(%r, 1), not a session, should raise' % (
                nm, l), cal.query(nm, l, 1), raises, nm)
        end = mkpos(n, 0, 0)
        nm = 'minutes_window'
        for t in fix(w, lambda: points(w)):
            p = fix(w, lambda: clampg(w, grid_search(t, 'right')))
            none = isinstance(p, int) and p == 0
            past = fix(w, lambda: clampg(w, grid_search(t, 'left'))) == end
            start = None if none else (p - 1 if isinstance(p, int)
                                       else p.shift(-1))
            for N in counts:
                if none:
                    X.ask(cal, nm, '%s(%r, %r) before the first minute '
                          'should raise' % (nm, t, N), cal.query(nm, t, N),
                          raises, nm)
                    continue
                if lcmp(N, 0) >= 0:
                    lo, hi = start, MArr.add(start, N)
                else:
                    hi = MArr.add(start, 1)
                    lo = MArr.add(hi, N)
                lo, hi = clampg(w, lo), clampg(w, hi)

                def m(o, lo=lo, hi=hi, past=past):
                    if o.kind == 'raise':
                        return True if past else False
                    return is_minutes(o.value, lo, hi)
                X.ask(cal, nm, '%s(%r, %r) should be minutes [%r:%r)' % (
                    nm, t, N, lo, hi), cal.query(nm, t, N), m, nm)
        lb = label_bounds(w)
        nm = 'session_distance'
        for a in lb:
            for b in lb:
                x, y, sg = (a, b, 1) if tcmp(a, b) <= 0 else (b, a, -1)
                lo, hi = label_range(w, x, y)
                d = lsub(hi, lo)
                want = d if sg == 1 else lsub(0, d)

                def m(v, want=want):
                    if vec(v) is None:
                        return None
                    return lcmp(v, want) == 0
                X.ask(cal, nm, '%s(%r, %r) should be %r' % (nm, a, b, want),
                      cal.query(nm, a, b), ret(m), nm)
        X.done(cal)
    return X.finish(1200, known)


# ------------------------------------------------------------------- C08


def c08(known):
    X = Ctx('C08', 'The constructed minute array must tile, session by '
            'session, open..close (or open..break start, break end..close) '
            'in one-minute steps, and the per-session minute counts must be '
            'the lengths of those tiles.')
    for w in worlds():
        cal = X.cal(w, grid=False)
        I = cal.I
        cal.need('all_minutes', 'minutes_count_for_sessions_in_range')
        end = mkpos(w.n, 0, 0)

        def m(v):
            if isinstance(v, Grid) and v.pieces:
                return False
            return is_minutes(v, 0, end)
        X.ask(cal, 'all_minutes', 'all_minutes should be the full minute '
              'grid', cal.attr('all_minutes'), ret(m), 'all_minutes')
        nm = 'minutes_count_for_sessions_in_range'
        ls = labels(w)
        for a in ls:
            for b in ls:
                if lcmp(b.s, a.s) < 0:
                    continue
                X.ask(cal, nm, '%s(%r, %r)' % (nm, a, b), cal.query(nm, a, b),
                      ret(lambda v: is_count(v, a.s, ladd(b.s, 1), w, I)),
                      nm)
        X.done(cal)
    return X.finish(60, known)


def minutes_of(w, s):
    if w.has_break(s):
        return Dur({CLOSE: 1, BE: -1, BS: 1, OPEN: -1}, 2 * MIN, MIN)
    return Dur({CLOSE: 1, OPEN: -1}, MIN, MIN)


def is_count(v, lo, hi, w, I):
    if isinstance(v, SumVal):
        a = v.arr
        if lcmp(lsub(a.hi, a.lo), lsub(hi, lo)):
            return False
        d = lsub(a.lo, lo)
        reps = [p for p in w.reps() if lcmp(p, lo) >= 0 and lcmp(p, hi) < 0]
        for x in (lo, ladd(hi, -1)):
            if x not in reps:
                reps.append(x)
        und = False
        for p in reps:
            x = a.at(I, ladd(p, d))
            if isinstance(x, Dur) and x.unit is not None:
                # total in minutes: coef/unit
                want = minutes_of(w, p)
                if x.unit != MIN or x.coef != want.coef or \
                        x.const != want.const:
                    return False
            elif isinstance(x, NaTVal):
                return False
            else:
                und = True
        return None if und else True
    if isinstance(v, Count) and v.extra is None:
        return pkey(v.a) == pkey(mkpos(lo, 0, 0)) and \
            pkey(v.b) == pkey(mkpos(hi, 0, 0))
    if isinstance(v, Pos):
        return lo == 0 and v.key() == pkey(mkpos(hi, 0, 0))
    return None


# ------------------------------------------------------------------- C29


def c29(known):
    X = Ctx('C29', 'For every order class of the instant, written in a zone '
            'one minute ahead of UTC, each instant query must give the '
            'answer it gives for the UTC instant.')
    names = ['next_open', 'next_close', 'previous_open', 'previous_close',
             'next_minute', 'previous_minute']
    far = sched.MINUTE_EAST

    def inst(want):
        if want is None:
            return raises
        return lambda o: False if o.kind == 'raise' else \
            same_ts(o.value, want)

    def flag(want):
        return lambda o: False if o.kind == 'raise' else \
            o.value is want if isinstance(o.value, bool) else None
    for w in worlds():
        cal = X.cal(w)
        I = cal.I
        cal.need('is_open_on_minute', 'minute_to_session_label',
                 'minutes_in_range', 'minutes_window',
                 'minute_index_to_session_labels', *names)
        pts = fix(w, lambda: points(w))

        def ask(nm, q, want, match, *a):
            X.ask(cal, nm, '%s(%s) in another zone should be %s' % (
                nm, ', '.join(map(repr, (q,) + a)), want),
                cal.query(nm, q, *a), match, nm)
        for t in pts:
            q = t.w_raw(tz=far)
            for nm in names:
                if nm.endswith('minute'):
                    f = next_min if nm[0] == 'n' else prev_min
                    want = fix(w, lambda: f(w, t))
                else:
                    slot = OPEN if nm.endswith('open') else CLOSE
                    f = next_slot if nm[0] == 'n' else prev_slot
                    s = fix(w, lambda: f(w, t, slot))
                    want = None if s is None else T(s, slot)
                ask(nm, q, want or 'an error', inst(want))
            inside = container(w, t) is not None
            want = inside and not in_break(w, t)
            ask('is_open_on_minute', q, want, flag(want))
            ask('is_open_on_minute', q, inside, flag(inside), True)
            for mode in ('next', 'previous', 'none'):
                want = fix(w, lambda: c04_want(w, t, mode))
                ask('minute_to_session_label', q, want, c04_match(want),
                    mode)
        if w.gapless:
            X.done(cal)
            continue
        ins = [p for p in pts if container(w, p) is not None]
        nm = 'minute_index_to_session_labels'

        def m(o):
            if o.kind == 'raise':
                return False
            r = o.value.iter(I) if isinstance(o.value, SArr) else \
                o.value.items() if isinstance(o.value, NDArr) else None
            if not isinstance(r, list):
                return None
            rs = [same_ts(x, T(y.s, LABEL)) for x, y in zip(r, ins)]
            return False if len(r) != len(ins) or False in rs else \
                None if None in rs else True
        X.ask(cal, nm, '%s of every minute in another zone' % nm, cal.query(
            nm, VArr(I, [p.w_raw(tz=far) for p in ins], 'idx', 'ts', far)),
            m, nm)
        for p in pts:
            if container(w, p) is None:
                q = p.w_raw(tz=far)
                X.ask(cal, nm, '%s([%r]) in another zone should raise' % (
                    nm, q), cal.query(nm, VArr(I, [q], 'idx', 'ts', far)),
                    raises, nm)
        if w.n == NN:
            pts = [p for p in pts if p.s in (0, KK, ladd(NN, -1))]
        for a in pts:
            p = fix(w, lambda: clampg(w, grid_search(a, 'right')))
            if not (isinstance(p, int) and p == 0):
                start = p - 1 if isinstance(p, int) else p.shift(-1)
                past = fix(w, lambda: clampg(w, grid_search(
                    a, 'left'))) == mkpos(w.n, 0, 0)
                lo = clampg(w, start)
                hi = clampg(w, MArr.add(start, 2))
                ask('minutes_window', a.w_raw(tz=far), 'minutes [%r:%r)' % (
                    lo, hi), lambda o: past if o.kind == 'raise' else
                    is_minutes(o.value, lo, hi), 2)
            for b in pts:
                lo, hi = fix(w, lambda: expect_grid(w, a, b))
                ask('minutes_in_range', a.w_raw(tz=far),
                    'minutes [%r:%r)' % (lo, hi),
                    ret(lambda v: is_minutes(v, lo, hi)), b.w_raw(tz=far))
        X.done(cal)
    return X.finish(700, known)
