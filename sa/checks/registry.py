"""C12, C13: the calendar registry.

Typestate analysis of the dispatcher: every name is in one of the states
absent / instance / type / failing type / alias of some name; each public
operation is interpreted from every combination of states of three names (one
further name is never registered), and the resulting typestate, read back
through the public operations, is compared with the specified transition."""
import itertools

from ..core import (AbsVal, Top, PyExc, Undecided, AnalysisError, ClassVal,
                    DictVal, InstVal)
from ..report import Check, REPO
from ..fold import make_interp

MODULE = 'trading_calendars.calendar_utils'
CLS = 'TradingCalendarDispatcher'
ERR = 'trading_calendars.errors'
A, B, C, Z = 'Name-a', 'Name-b', 'Name-c', 'Name-z'

ASSUME = ['dictionaries and sets behave as documented',
          'the registry treats names only through equality, so three '
          'registered names and one unregistered one represent all names; '
          'alias chains of length 0 to 3 and cycles of length 1 to 3 are '
          'enumerated in every arrangement, chains and cycles of 4 to 40 '
          'names singly; longer ones follow the same loop']


LONG = (4, 5, 6, 8, 12, 40)


class Token(AbsVal):
    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return '<calendar %s>' % self.label

    def truth(self, I):
        return True

    def compare(self, I, op, other):
        if op in ('is', '=='):
            return self is other
        if op in ('is not', '!='):
            return self is not other
        return Top('order of calendars')


class Factory(AbsVal):
    def __init__(self, label, bad):
        self.label, self.bad, self.made = label, bad, []

    def __repr__(self):
        return '<%stype %s>' % ('failing ' if self.bad else '', self.label)

    def truth(self, I):
        return True

    def call(self, I, args, kw):
        t = Token('made by %s' % self.label)
        self.made.append(t)
        if self.bad:
            I.throw('ZeroDivisionError', 'failing type')
        return t


def states(names, other, bad=True):
    per = ['absent', 'inst', 'type'] + (['bad'] if bad else []) + \
        [('alias', x) for x in other]
    return [dict(zip(names, c)) for c in
            itertools.product(per, repeat=len(names))]


class Model(object):
    """The specification."""

    def __init__(self, st):
        self.e = {}
        for n, s in st.items():
            if s == 'inst':
                self.e[n] = ('inst', Token(n))
            elif s in ('type', 'bad'):
                self.e[n] = ['type', Factory(n, s == 'bad'), None]
            elif s != 'absent':
                self.e[n] = ('alias', s[1])

    def copy(self):
        m = Model({})
        for k, v in self.e.items():
            m.e[k] = list(v) if isinstance(v, list) else v
        return m

    def resolve(self, n):
        seen = []
        while n in self.e and self.e[n][0] == 'alias':
            if n in seen:
                return None
            seen.append(n)
            n = self.e[n][1]
        return n

    def __repr__(self):
        return '{%s}' % ', '.join(
            '%s: %s' % (k, v[0] if v[0] != 'alias' else 'alias of %s' % v[1])
            for k, v in sorted(self.e.items()))


def bad(msg):
    return (False, msg)


class Reg(object):
    """The analysed dispatcher and its model, side by side."""

    def __init__(self, X, st):
        self.X, self.I = X, X.I
        self.m = Model(st)
        I = self.I
        self.given = [DictVal(I), DictVal(I), DictVal(I)]
        for n, v in self.m.e.items():
            i = {'inst': 0, 'type': 1, 'alias': 2}[v[0]]
            self.given[i].setitem(I, n, v[1])
        self.d = None
        self.soft = False

    def start(self):
        I = self.I
        r = self.run(lambda: I.call(self.X.cls, list(self.given)))
        if r[0] != 'return' or not isinstance(r[1], InstVal):
            return False
        self.d = r[1]
        return True

    def run(self, f):
        """('return', v) / ('raise', e) / ('diverge', None) / ('?', why)"""
        I = self.I
        I.begin_path()
        I.choices = []
        I.fuel = 20000
        try:
            r = ('return', f())
        except PyExc as e:
            r = ('raise', e)
        except Undecided as e:
            if I.soft or 'budget' not in str(e):
                return ('?', str(e))
            return ('diverge', None)
        if I.soft:
            return ('?', I.soft[0])
        if r[0] == 'return' and isinstance(r[1], Top):
            return ('?', r[1].why)
        return r

    def call(self, name, *args, **kw):
        I = self.I
        return self.run(lambda: I.call(I.getattr(self.d, name), list(args),
                                       kw))

    # each returns (True/False/None, text)

    def raised(self, r, cls):
        if r[0] == '?':
            return (None, r[1])
        if r[0] == 'diverge':
            return bad('does not terminate')
        if r[0] == 'return':
            return bad('returns %r instead of raising %s' % (r[1], cls))
        v = r[1].val
        if isinstance(v, InstVal):
            return (True, '') if v.cls.subclass_of(self.X.err[cls]) else \
                bad('raises %s instead of %s' % (r[1].name(), cls))
        return bad('raises %s instead of %s' % (r[1].name(), cls))

    def get(self, n):
        r = self.call('get_calendar', n)
        t = self.m.resolve(n)
        if t is None:
            return self.raised(r, 'CyclicCalendarAlias')
        e = self.m.e.get(t)
        if e is None:
            return self.raised(r, 'InvalidCalendarName')
        if r[0] == '?':
            return (None, r[1])
        if r[0] == 'diverge':
            return bad('does not terminate')
        if e[0] == 'inst':
            if r[0] == 'return' and r[1] is e[1]:
                return (True, '')
            return bad('gives %r instead of the registered calendar'
                       % (shown(r),))
        fac = e[1]
        if fac.bad:
            if r[0] == 'raise' and r[1].name() == 'ZeroDivisionError':
                return (True, '')
            return bad('gives %r instead of the construction error'
                       % (shown(r),))
        if e[2] is None:
            if r[0] == 'return' and fac.made and r[1] is fac.made[-1] and \
                    len(fac.made) == 1:
                e[2] = r[1]
                return (True, '')
            return bad('gives %s instead of one calendar built by the '
                       'registered type (type called %d times)'
                       % (shown(r), len(fac.made)))
        if r[0] == 'return' and r[1] is e[2] and len(fac.made) == 1:
            return (True, '')
        return bad('gives %s on a later lookup instead of the calendar built '
                   'first (type called %d times)' % (shown(r),
                                                     len(fac.made)))

    def names(self):
        r = self.call('get_calendar_names')
        if r[0] == 'return':
            it = self.I.iterate(r[1])
            if isinstance(it, list) and all(isinstance(x, str) for x in it):
                if set(it) == set(self.m.e):
                    return (True, '')
                return bad('names listed are %s, should be %s' % (
                    sorted(set(it)), sorted(self.m.e)))
            return (None, 'names %r' % (r[1],))
        if r[0] == '?':
            return (None, r[1])
        return bad('listing the names gives %s' % (shown(r),))

    def resolved(self, n):
        r = self.call('resolve_alias', n)
        t = self.m.resolve(n)
        if t is None:
            return self.raised(r, 'CyclicCalendarAlias')
        if r[0] == '?':
            return (None, r[1])
        if r[0] == 'return' and r[1] == t:
            return (True, '')
        return bad('%s resolves to %s instead of %s' % (n, shown(r), t))

    def has(self, n):
        if not self.X.has_has:
            return (True, '')
        r = self.call('has_calendar', n)
        if r[0] == '?':
            return (None, r[1])
        if r == ('return', n in self.m.e):
            return (True, '')
        return bad('has_calendar(%s) is %s instead of %s' % (
            n, shown(r), n in self.m.e))

    def observe(self, names, after):
        """Read the whole typestate back."""
        fs = [('names', self.names)]
        for n in names:
            fs += [('has', lambda n=n: self.has(n)),
                   ('resolve', lambda n=n: self.resolved(n)),
                   ('lookup of ' + n, lambda n=n: self.get(n))]
        for n in names:
            fs.append(('second lookup of ' + n, lambda n=n: self.get(n)))
        fs.append(('names', self.names))
        for k, f in fs:
            ok, why = f()
            if ok is not True:
                return ok, '%s: %s' % (k, why)
        return True, ''

    def op(self, op):
        kind, n = op[0], op[1]
        m = self.m
        if kind == 'get':
            return self.get(n)
        if kind == 'names':
            return self.names()
        if kind == 'resolve':
            return self.resolved(n)
        if kind == 'dereg':
            m.e.pop(n, None)
            r = self.call('deregister_calendar', n)
        elif kind == 'clear':
            m.e.clear()
            r = self.call('clear_calendars')
        else:
            force = op[-1]
            new = {'inst': lambda: ('inst', Token('new ' + n)),
                   'type': lambda: ['type', Factory('new ' + n, False), None],
                   'alias': lambda: ('alias', op[2])}[kind]()
            meth = {'inst': 'register_calendar',
                    'type': 'register_calendar_type',
                    'alias': 'register_calendar_alias'}[kind]
            kw = {} if force is None else {'force': force}
            r = self.call(meth, n, new[1], **kw)
            if n in m.e and not force:
                return self.raised(r, 'CalendarNameCollision')
            if kind == 'alias':
                old = m.e.get(n)
                m.e[n] = new
                if m.resolve(n) is None:
                    if old is None:
                        del m.e[n]
                    else:
                        m.e[n] = old
                    return self.raised(r, 'CyclicCalendarAlias')
            else:
                m.e[n] = new
        if r[0] == '?':
            return (None, r[1])
        if r[0] != 'return':
            return bad('gives %s' % shown(r))
        return (True, '')


def shown(r):
    if r[0] == 'raise':
        p, f, l = r[1].site or ('?', '?', '?')
        return '%s raised at %s:%s' % (r[1].name(), p, l)
    if r[0] == 'diverge':
        return 'no answer (does not terminate)'
    return repr(r[1])


class Ctx(object):
    def __init__(self, pid, rule):
        self.c = Check(pid, rule, ASSUME)
        self.I = make_interp(REPO)
        m = self.I.import_module(MODULE)
        e = self.I.import_module(ERR)
        self.mod = m
        self.cls = m.env.get(CLS)
        if not isinstance(self.cls, ClassVal):
            raise AnalysisError('anchor missing: %s.%s' % (MODULE, CLS))
        self.err = {}
        for n in ('CalendarNameCollision', 'CyclicCalendarAlias',
                  'InvalidCalendarName'):
            self.err[n] = e.env.get(n)
            if not isinstance(self.err[n], ClassVal):
                raise AnalysisError('anchor missing: %s.%s' % (ERR, n))
        for n in ('get_calendar', 'get_calendar_names', 'resolve_alias',
                  'register_calendar', 'register_calendar_type',
                  'register_calendar_alias', 'deregister_calendar',
                  'clear_calendars'):
            if self.cls.lookup(n)[1] is None:
                raise AnalysisError('anchor missing: %s.%s' % (CLS, n))
        self.has_has = self.cls.lookup('has_calendar')[1] is not None

    def site(self, meth):
        v, c = self.cls.lookup(meth)
        return '%s:%s %s.%s' % (c.module.path, getattr(
            getattr(v, 'node', None), 'lineno', '?'), CLS, meth)

    def finish(self, floor, known):
        self.c.functions = {str(f) for f in self.I.called
                            if 'calendar_utils' in str(f) or CLS in str(f)}
        return self.c.finish(floor, known)


METH = {'get': 'get_calendar', 'inst': 'register_calendar',
        'type': 'register_calendar_type', 'alias': 'register_calendar_alias',
        'dereg': 'deregister_calendar', 'clear': 'clear_calendars',
        'names': 'get_calendar_names', 'resolve': 'resolve_alias'}


def show(op):
    return '%s(%s)' % (METH[op[0]], ', '.join(
        [str(x) for x in op[1:] if not isinstance(x, bool) and
         x is not None] + (['force=%s' % op[-1]]
                           if isinstance(op[-1], bool) else [])))


def transition(X, st, ops, kind, names, watch=None):
    """Interpret the operations from the state and read back."""
    r = Reg(X, st)
    if not r.start():
        return X.c.dunno(kind, 'constructing the registry')
    text = '%s from %r' % (' then '.join(show(o) for o in ops), r.m)
    ok, why = True, ''
    other = None
    if watch:
        other = Reg(X, st)
        other.m, other.given = r.m.copy(), r.given
        if not other.start():
            return X.c.dunno(kind, 'constructing the registry')
    for o in ops:
        ok, why = r.op(o)
        if ok is not True:
            break
    if ok is True and not watch:
        ok, why = r.observe(names, text)
    if ok is True and watch:
        ok, why = other.observe(names, text)
        if ok is False:
            why = 'seen by another registry: ' + why
        if ok is True:
            for g, k in zip(r.given, ('inst', 'type', 'alias')):
                want = {n for n, v in watch.items()
                        if (v[0] if isinstance(v, tuple) else
                            'type' if v == 'bad' else v) == k}
                if set(g.keylist()) != want:
                    ok, why = False, 'the mapping given to the ' \
                        'constructor is changed'
    X.c.decide(kind, text, X.site(METH[ops[-1][0]]), ok, why or 'as '
               'specified')


def c12(known):
    X = Ctx('C12', 'Typestate of every name (absent, instance, type, failing '
            'type, alias) before and after each lookup; the transition must '
            'be the specified one from every combination of states.')
    for st in states((A, B, C), (A, B, C, Z)):
        transition(X, st, [('get', A)], 'lookup', (A, B, C, Z))
    # lookups after any one operation (hidden state of earlier operations)
    for st in states((A, B), (A, B, Z)):
        for o in changes(A, (A, B, Z)) + [('get', A), ('get', B),
                                          ('names', A)]:
            if o[0] in ('clear',):
                continue
            transition(X, st, [('get', B), o, ('get', B), ('get', A)],
                       'lookup after change', (B, A, Z))
    # the same object through every alias
    for st in states((A, B, C), (A, B, C), bad=False):
        if list(st.values()).count('type') == 1:
            transition(X, st, [('get', B), ('get', C), ('resolve', A),
                               ('dereg', A), ('get', C)],
                       'deregistering', (A, B, C))
    for n in LONG:
        ns = ['Name-%d' % i for i in range(n + 1)]
        chain = {a: ('alias', b) for a, b in zip(ns, ns[1:])}
        for end in ('inst', 'type', 'bad', 'absent') + tuple(
                ('alias', ns[i]) for i in (0, 1, n - 1, n)):
            st = dict(chain, **{ns[n]: end})
            transition(X, st, [('get', ns[0]), ('get', ns[n])],
                       'long chain', (ns[0], ns[1], ns[n]))
    return X.finish(1000, known)


def changes(n, targets):
    out = []
    for f in (None, False, True):
        out += [('inst', n, f), ('type', n, f)]
        out += [('alias', n, t, f) for t in targets]
    return out + [('dereg', n), ('clear', n)]


def c13(known):
    X = Ctx('C13', 'Typestate of every name before and after each register, '
            'deregister and clear operation, with and without force; refused '
            'operations must leave every name\'s state, and another '
            'registry\'s, unchanged.')
    for st in states((A, B, C), (A, B, C, Z), bad=False):
        for o in changes(A, (A, B, C, Z)):
            if o[-1] is None and st[C] != 'absent':
                continue
            transition(X, st, [o], 'change', (A, B, C, Z))
    for st in states((A, B), (A, B, Z), bad=False):
        for o in changes(A, (A, B, Z)):
            if o[-1] is None:
                continue
            transition(X, st, [o], 'other registry', (A, B, Z), st)
            for p in changes(B, (A, B)) + changes(A, (B,)):
                if p[-1] is None:
                    continue
                transition(X, st, [('get', A), o, p], 'two changes',
                           (A, B, Z))
    for n in LONG:
        ns = ['Name-%d' % i for i in range(n + 1)]
        st = {a: ('alias', b) for a, b in zip(ns, ns[1:])}
        for f in (False, True):
            for i in (0, 1, n // 2, n - 1, n):
                transition(X, st, [('alias', ns[n], ns[i], f)], 'long chain',
                           (ns[0], ns[1], ns[n]))
        transition(X, st, [('type', ns[n], False), ('dereg', ns[n - 1])],
                   'long chain', (ns[0], ns[n - 1], ns[n]))
    return X.finish(3000, known)
