"""A synthetic calendar in the order domain: the repository's calendar base
class is interpreted over abstract sessions."""
from .core import (Interp, Top, ListVal, DictVal, ClassVal, InstVal, PyExc,
                   Undecided, AnalysisError, FuncVal, BoundModel, AbsVal,
                   BoundMethod, SetVal, load_package)
from . import stdmodels, pdconst, sched
from .pdconst import TZ, UTCZ, CBD, NAT
from .sched import (T, World, Lin, VArr, SArr, TimeAtom, LABEL, OPEN, M1, BS,
                    BRK, BE, M2, CLOSE, GAP, NONLAB, SOPEN, SCLOSE, NN, KK,
                    JJ, HH, MIN, ladd)
from .fold import base_class

LOCAL = TZ('Zone/Local')


def atom(name, slot):
    a = TimeAtom(name)
    a.slot = slot
    return a


class RuleCal(AbsVal):
    """A holiday calendar given by its dates; clips to the asked range."""
    types = ('pandas.tseries.holiday.AbstractHolidayCalendar',)

    def __init__(self, name, dates):
        self.name, self.dates = name, dates
        self.asked = []

    def __repr__(self):
        return 'rules<%s>' % self.name

    def truth(self, I):
        return True

    def m_holidays(self, I, start=None, end=None, return_name=False):
        if return_name:
            return Top('holiday names')
        self.asked.append((start, end))
        out = []
        for d in self.dates:
            # without bounds the library lists 1970 to 2200 only; calendars
            # reach further back
            ok = start is not None or d.s != 0
            for b, op in ((start, '>='), (end, '<=')):
                if b is None:
                    continue
                r = I.compare(op, d.w_raw(tz=b.tz) if isinstance(b, T) else d,
                              b)
                if r is not True and r is not False:
                    return Top('holidays range')
                ok = ok and r
            if ok:
                out.append(d)
        tz = getattr(start, 'tz', None)
        return VArr(I, [d.w_raw(tz=tz) for d in out], 'idx', 'ts', tz)


class Outcome(object):
    after = False            # an earlier query left its mark

    def __init__(self, kind, value, soft, where=None):
        self.kind, self.value = kind, value
        self.soft, self.where = list(soft), where

    def __repr__(self):
        v = self.value
        if self.kind == 'raise':
            v = v.name() if isinstance(v, PyExc) else v
        return '%s %r%s%s' % (self.kind, v, ' after earlier queries'
                              if self.after else '',
                              ' (soft: %s)' % self.soft[:2] if self.soft
                              else '')


class Cal(object):
    def __init__(self, modules, world, **over):
        self.world = world
        self.I = I = Interp(modules, sched.models(), dict(stdmodels.C),
                            fuel=3000000)
        I.consts.update(pdconst._lib_holidays(I))
        I.ctx['now_year'], I.ctx['now_month'] = 2020, 10
        sched.hooks(I, world)
        I.begin_path()
        sched._W[0] = world
        self.base = base_class(I)
        I.phase = 'build'
        n = world.n
        self.start = T(0, LABEL, 0, 'ts', UTCZ)
        self.end = T(ladd(n, -1), LABEL, 0, 'ts', UTCZ)
        self.atoms = dict(open=atom('open', OPEN), close=atom('close', CLOSE),
                          bs=atom('break start', BS), be=atom('break end',
                                                              BE))
        d = dict(
            name='SYN', tz=LOCAL,
            open_times=((None, self.atoms['open']),),
            close_times=((None, self.atoms['close']),),
            weekmask='1111100',
            regular_holidays=RuleCal('holidays', []),
        )
        if world.breaks != 'none':
            d['break_start_times'] = ((None, self.atoms['bs']),)
            d['break_end_times'] = ((None, self.atoms['be']),)
        d.update(over)
        self.over = d
        self.cls = ClassVal('SyntheticCalendar', [self.base], d,
                            self.base.module)
        self.err = None
        self.inst = InstVal(I, self.cls)
        self.build_paths = 0

    def build(self, start=None, end=None, grid=True):
        """Interpret the constructor.  Returns Outcome; the instance is
        usable when it is a decided return.  When the enumeration of the
        minutes is beyond the analysis, and grid allows it, the minutes are
        taken to be what they are specified to be (property C08)."""
        o = self._build(start, end)
        if grid and o.soft and 'all_minutes' not in self.cls.d and \
                self.cls.lookup('all_minutes')[1] is not None:
            inst, self.inst = self.inst, InstVal(self.I, self.cls)
            self.assume_grid()
            self.I.phase = 'build'
            p = self._build(start, end)
            if not p.soft and p.kind != 'undecided':
                return p
            del self.cls.d['all_minutes']
            self.inst, self.built = inst, o
        return o

    def assume_grid(self):
        self.cls.d['all_minutes'] = sched.MArr(
            self.I, 0, sched.mkpos(self.world.n, 0, 0), 'ts', UTCZ, 'idx')

    def _build(self, start, end):
        I = self.I
        I.begin_path()
        I.choices = []
        try:
            init, _ = self.cls.lookup('__init__')
            if init is None:
                raise AnalysisError('anchor missing: calendar constructor')
            I.call(BoundMethod(self.inst, init), [],
                   dict(start=self.start if start is None else start,
                        end=self.end if end is None else end))
            o = Outcome('return', self.inst, I.soft)
        except PyExc as e:
            o = Outcome('raise', e, I.soft, e.site)
        except Undecided as e:
            o = Outcome('undecided', str(e), I.soft)
        self.built = o
        I.soft = []
        I.phase = 'query'
        return o

    def _run(self, f):
        """all paths of f() from the built state and, when queries leave
        something behind in the calendar, from what they left"""
        sched._W[0] = self.world
        snap = self.capture()
        outs, left = self._paths(f, snap)
        if self.history:
            first, last, chain = self.history
            for i, st in enumerate((first, last, chain)):
                if i and st is first:
                    continue
                more, then = self._paths(f, st)
                for o in more:
                    o.after = True
                outs += more
                if i == 2 and then is not None:
                    chain = then
            self.history = (first, left or last,
                            chain if chain is not first else left or chain)
        elif left is not None:
            self.history = (left, left, left)
        self.restore(snap)
        return outs

    history = None

    def _paths(self, f, snap):
        """outcomes of all paths of f() from a state, and the state left by
        them if it is another one and certain"""
        I = self.I
        outs, left = [], None
        I.choices = []
        I.dirty = []
        npath = 0
        while True:
            I.begin_path()
            self.restore(snap)
            self.forget()
            I.fuel = 400000
            try:
                outs.append(Outcome('return', f(), I.soft))
            except PyExc as e:
                outs.append(Outcome('raise', e, I.soft, e.site))
            except Undecided as e:
                outs.append(Outcome('undecided', str(e), I.soft))
            npath += 1
            if npath == 1 and not I.soft and not I.choices and \
                    outs[0].kind != 'undecided' and self.changed(snap):
                left = self.capture()
            if npath > 64 or not I.next_path():
                break
        if npath > 1:
            left = None
        self.restore(snap)
        self.forget()
        I.soft = []
        I.choices = []
        return outs, left

    def capture(self):
        """contents of the calendar object and of the plain containers and
        helper objects it holds"""
        out, todo, seen = [], [self.inst], set()
        while todo:
            v = todo.pop()
            if isinstance(v, tuple):
                todo.extend(v)
                continue
            if not isinstance(v, (InstVal, ListVal, DictVal, SetVal)) or \
                    id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, ListVal):
                out.append((v, list(v.items)))
                todo.extend(v.items)
                continue
            out.append((v, dict(v.d)))
            for x in v.d.values():
                todo.append(x)
        return out

    @staticmethod
    def restore(snap):
        for v, c in snap:
            if isinstance(v, ListVal):
                v.items[:] = c
            else:
                v.d.clear()
                v.d.update(c)

    @staticmethod
    def changed(snap):
        for v, c in snap:
            if isinstance(v, ListVal):
                if len(c) != len(v.items) or \
                        any(a is not b for a, b in zip(c, v.items)):
                    return True
            elif len(c) != len(v.d) or \
                    any(k not in v.d or v.d[k] is not x
                        for k, x in c.items()):
                return True
        return False

    def forget(self):
        """nothing computed on an undecided path is remembered"""
        for d, k in self.I.dirty:
            d.d.pop(k, None)
        self.I.dirty = []

    def query(self, name, *args, **kw):
        I = self.I

        def f():
            m = I.getattr(self.inst, name)
            return I.call(m, list(args), dict(kw))
        return self._run(f)

    def attr(self, name):
        return self._run(lambda: self.I.getattr(self.inst, name))

    def seqrun(self, f):
        return self._run(f)

    def has(self, name):
        v, c = self.cls.lookup(name)
        return c is not None or name in self.inst.d

    def site(self, name):
        v, c = self.cls.lookup(name)
        if c is None:
            v, c = self.cls.lookup('__init__')
        f = v
        for a in ('fget', 'func', 'f'):
            if hasattr(f, a):
                f = getattr(f, a)
        if isinstance(f, InstVal):
            f = next((x for x in f.d.values() if isinstance(x, FuncVal)), f)
        node = getattr(f, 'node', None)
        path = c.module.path if c is not None else '?'
        return '%s:%s %s.%s' % (path, getattr(node, 'lineno', '?'),
                                c.name if c is not None else '?', name)

    def need(self, *names):
        for n in names:
            if not self.has(n):
                raise AnalysisError('anchor missing: calendar method %s' % n)

    def seed(self):
        """Give the instance the state its constructor is specified to
        build (used when the constructor itself is not analysable)."""
        I, w = self.I, self.world
        I.phase = 'build'
        n = w.n
        self.seeded = True
        # nothing remembered during the failed construction may be used
        self.inst = InstVal(I, self.cls)

        def col(slot):
            def fn(p):
                if slot in sched.BREAK_SLOTS and not w.has_break(p):
                    return NAT
                return T(p, slot, 0, 'ts', UTCZ)
            return fn
        labels = SArr(I, sched.Col(I, col(LABEL)), 0, n, 'ts', UTCZ, 'idx')

        def arr(slot, cont, form, tz, index=None):
            return SArr(I, sched.Col(I, col(slot)), 0, n, form, tz, cont,
                        index)
        d = self.inst.d
        d['_opens'] = arr(OPEN, 'idx', 'ts', UTCZ)
        d['_closes'] = arr(CLOSE, 'idx', 'ts', UTCZ)
        d['_break_starts'] = arr(BS, 'idx', 'ts', UTCZ)
        d['_break_ends'] = arr(BE, 'idx', 'ts', UTCZ)
        d['schedule'] = sched.FrameVal(I, labels, {
            k: arr(s, 'series', 'ts', None, labels)
            for k, s in (('market_open', OPEN), ('break_start', BS),
                         ('break_end', BE), ('market_close', CLOSE))})
        d['_minute_to_session_label_cache'] = (None, None)
        for k, s in (('opens', OPEN), ('break_starts', BS),
                     ('break_ends', BE), ('closes', CLOSE)):
            d['market_%s_nanos' % k] = arr(s, 'arr', 'ns', None)
        end = sched.mkpos(n, 0, 0)
        d['_trading_minutes_nanos'] = sched.MArr(I, 0, end, 'ns', None,
                                                 'arr')
        d['first_trading_session'] = T(0, LABEL)
        d['last_trading_session'] = T(ladd(n, -1), LABEL)
        e = VArr(I, [], 'idx', 'ts', UTCZ)
        d['_late_opens'] = d['_early_closes'] = e
        I.phase = 'query'


def make(modules, world, grid=True, **over):
    """A calendar ready for queries; constructor interpreted if possible."""
    c = Cal(modules(), world, **over)
    c.seeded = False
    o = c.build(grid=grid)
    if o.kind != 'return' or o.soft:
        c.why = repr(o)
        c.seed()
        if grid and o.soft:
            c.assume_grid()
    return c
