"""C21: reading never changes a calendar or anything shared.

Effect analysis: every object of the interpreted heap knows the phase that
made it (module load, construction, the caller, the query itself).  While a
definition is read or a query answered, a write to an object of an earlier
phase is an effect.  Weak memo tables, tables that were empty when the package
was loaded (caches) and private non-table attributes of a calendar are not
part of its contents.  Definitions are read twice and must agree."""
import datetime as dtm

from ..core import (AbsVal, Top, PyExc, Undecided, ClassVal, DictVal, ListVal,
                    SetVal, InstVal, ModuleVal, PropVal, FuncVal,
                    BoundMethod, is_native)
from ..report import Check, REPO
from .. import fold, sched, calmodel
from ..pdconst import UTCZ, TS, DTI, NDArr, HolidayVal, TZ, TimeVal, Buf
from ..sched import T, World, VArr, SArr, LABEL, NN, KK, ladd
from . import queries as Q
from . import building as B
from . import registry as R
from .definitions import Defs

ASSUME = ['models of pandas and numpy state which of their operations write '
          'in place; all others return fresh objects or unwritten views'] + \
    Q.ASSUME[1:]

SKIP = ('owner', 'born', 'I', 'I0', 'cache', 'module', 'node',
        'asked')


def canon(v, depth=0, seen=None):
    """comparable form of a folded value"""
    if depth > 12:
        return '...'
    if v is None or isinstance(v, (bool, int, float, str, bytes,
                                   dtm.datetime, dtm.date, dtm.time,
                                   dtm.timedelta)):
        return v
    if isinstance(v, (tuple, list)):
        return tuple(canon(x, depth + 1) for x in v)
    if isinstance(v, ListVal):
        return tuple(canon(x, depth + 1) for x in v.items)
    if isinstance(v, SetVal):
        return ('set',) + tuple(sorted(map(repr, v.d)))
    if isinstance(v, DictVal):
        return ('dict',) + tuple((canon(k, depth + 1), canon(x, depth + 1))
                                 for k, x in v.d.values())
    if isinstance(v, (DTI, NDArr)):
        try:
            xs = v.items() if isinstance(v, NDArr) else list(v.data) \
                if hasattr(v, 'data') else repr(v)
        except Exception:
            xs = repr(v)
        return ('array', canon(xs, depth + 1))
    if isinstance(v, (ClassVal, FuncVal, ModuleVal, Top)):
        return repr(type(v)) + str(getattr(v, 'name', '') or
                                   getattr(v, 'qualname', ''))
    if isinstance(v, InstVal):
        return (v.cls.name,) + tuple((k, canon(x, depth + 1))
                                     for k, x in sorted(v.d.items()))
    if isinstance(v, AbsVal):
        return (type(v).__name__,) + tuple(
            (k, canon(x, depth + 1)) for k, x in sorted(vars(v).items())
            if k not in SKIP)
    return str(type(v))


class Watch(object):
    """the effects of one reading"""

    def __init__(self, I, calendar=None):
        self.I, self.calendar = I, calendar
        self.before = {}
        I.writes = []
        I.hooks['write'] = self.hook
        if calendar is not None and not hasattr(calendar, 'caches'):
            # private containers holding nothing after construction, and
            # private helper objects
            calendar.caches = [
                v for k, v in calendar.d.items() if k.startswith('_') and
                (isinstance(v, ListVal) and not v.items or
                 isinstance(v, DictVal) and not v.d or
                 isinstance(v, SetVal) and not v.d or
                 isinstance(v, InstVal))]

    def hook(self, obj, what):
        if id(obj) in self.before:
            return
        if isinstance(obj, DictVal) and not getattr(obj, 'weak', False):
            self.before[id(obj)] = dict(obj.d)
        elif isinstance(obj, ListVal):
            self.before[id(obj)] = list(obj.items)
        elif isinstance(obj, InstVal):
            self.before[id(obj)] = dict(obj.d)
        elif isinstance(obj, Buf):
            self.before[id(obj)] = list(obj.data)

    def same(self, obj, old):
        """the contents are what they were"""
        if isinstance(obj, ListVal):
            return canon(obj) == canon(old)
        if isinstance(obj, Buf):
            return canon(obj.data) == canon(old)
        if isinstance(obj, (DictVal, InstVal)):
            a, b = dict(obj.d), old
            if isinstance(obj, DictVal):
                a = {k: v for k, (_, v) in a.items()}
                b = {k: v for k, (_, v) in b.items()}
            return list(a) == list(b) and all(
                a[k] is b[k] or (is_native(a[k]) and a[k] == b[k])
                for k in a)
        return False

    def effects(self):
        out = []
        for phase, owner, obj, what, where in self.I.writes:
            if owner is None or getattr(obj, 'weak', False):
                continue
            old = self.before.get(id(obj))
            if old is not None and obj is not self.calendar and \
                    self.same(obj, old):
                continue
            if any(obj is x for x in getattr(self.calendar, 'caches', ())) \
                    and (not isinstance(obj, InstVal) or not table(
                        (old or {}).get(what[len('attribute '):]))):
                continue
            if isinstance(obj, (DictVal, ListVal, SetVal)) and not old and \
                    old is not None:
                continue                       # a cache, empty at load
            if isinstance(obj, InstVal) and what.startswith('attribute '):
                n = what[len('attribute '):]
                was = (old or {}).get(n)
                if n.startswith('_') and not table(was):
                    continue                   # private scalar state
            if isinstance(obj, ClassVal) and what.startswith(
                    'class attribute _'):
                continue
            out.append((obj, what, where))
        return out


def table(v):
    return isinstance(v, (ListVal, DictVal, NDArr, DTI, SArr,
                          sched.FrameVal)) or isinstance(v, sched.SeqBase)


def tell(e):
    obj, what, where = e
    b = getattr(obj, 'born', None)
    return '%s of an object made %s' % (what, 'at %s:%s' % (b[0], b[2])
                                        if b else 'earlier')


def definitions(c):
    D = Defs('C21', '')
    I = D.I
    D.c = c
    ships = D.shipped()
    lo, hi = dtm.datetime(2000, 1, 1), dtm.datetime(2020, 12, 31)
    I.phase = 'read'
    for n, f in sorted(ships.items()):
        cls = f.cls
        fields = list(fold.Facts.FIELDS)
        for k in cls.mro:
            if isinstance(k, ClassVal):
                fields += [a for a, v in k.d.items() if isinstance(v, PropVal)
                           and a not in fields]
        for a in fields:
            if cls.lookup(a)[1] is None:
                continue
            vals, bad, und = [], None, None
            W = Watch(I)
            for i in (1, 2):
                inst = InstVal(I, cls)
                r = D.run(lambda: I.getattr(inst, a))
                if r[0] != 'return':
                    und = r[1] if r[0] == '?' else None
                    vals = None
                    break
                vals.append((canon(r[1]), r[1]))
                if a in ('regular_holidays',):
                    fold.rule_set(I, r[1], lo, hi)
                elif a in ('special_opens', 'special_closes'):
                    it = I.iterate(r[1])
                    for p in it if isinstance(it, list) else []:
                        p = I.iterate(p)
                        if isinstance(p, list) and len(p) == 2:
                            fold.rule_set(I, p[1], lo, hi)
            site = D.site(cls, a)
            es = W.effects()
            if es:
                c.fail('definition', '%s.%s' % (n, a), '%s (write at %s:%s '
                       'in %s)' % ((site,) + (es[0][2][0], es[0][2][2],
                                              es[0][2][1])), tell(es[0]))
            elif vals is None:
                if und is not None and a in fold.Facts.FIELDS:
                    c.dunno('definition', '%s.%s: %s' % (n, a, und))
            elif vals[0][0] != vals[1][0] or canon(vals[0][1]) != vals[0][0]:
                c.fail('twice', '%s.%s' % (n, a), site,
                       'the second reading differs from the first')
            else:
                c.ok('definition', sample='%s.%s' % (n, a))
    c.functions |= {str(f) for f in I.called}
    return ships


def calls(w):
    """(method, makers of arguments) of the public queries"""
    n = w.n
    last = ladd(n, -1)
    ss = [T(0, LABEL), T(last, LABEL)]
    if not isinstance(n, int):
        ss.insert(1, T(KK, LABEL))
    pts = Q.fix(w, lambda: Q.points(w, False))
    out = []
    for m in ('next_open', 'next_close', 'previous_open', 'previous_close',
              'next_minute', 'previous_minute', 'is_session',
              'is_open_on_minute', 'minute_to_session_label'):
        out += [(m, [p], {}) for p in pts]
    for p in pts:
        out += [('minute_to_session_label', [p], {'direction': d})
                for d in ('previous', 'none')]
        out.append(('is_open_on_minute', [p], {'ignore_breaks': True}))
        out += [('minutes_window', [p, k], {}) for k in (3, -3)]
    for m in ('next_session_label', 'previous_session_label',
              'minutes_for_session', 'execution_minutes_for_session',
              'open_and_close_for_session',
              'break_start_and_end_for_session', 'session_open',
              'session_break_start', 'session_break_end', 'session_close'):
        out += [(m, [s], {}) for s in ss]
    for m in ('sessions_in_range', 'session_distance',
              'minutes_for_sessions_in_range', 'session_opens_in_range',
              'session_closes_in_range', 'minutes_in_range',
              'minutes_count_for_sessions_in_range',
              'execution_minutes_for_sessions_in_range'):
        out += [(m, [a, b], {}) for a in ss for b in ss]
    for s in ss:
        out += [('sessions_window', [s, k], {}) for k in (1, -1)]
    ins = [p for p in pts if Q.container(w, p) is not None]
    vecs = [ins, ins[:1], [], list(reversed(ins)),
            [p for p in pts if Q.container(w, p) is None][:1]]
    for v in vecs:
        out.append(('minute_index_to_session_labels', [('idx', v)], {}))
        out.append(('minute_index_to_session_labels', [('series', v)], {}))
    for m in ('execution_time_from_open', 'execution_time_from_close'):
        out.append((m, [('idx', ins)], {}))
    return out


PROPS = ('opens', 'closes', 'late_opens', 'early_closes', 'all_sessions',
         'first_session', 'last_session', 'all_minutes', 'day')


def queries(c):
    X = Q.Ctx('C21', '')
    X.c = c
    for w in (World(NN), World(NN, 'none'), World(3)):
        cal = X.cal(w)
        I = cal.I
        todo = [('attr', p, [], {}) for p in PROPS] + \
            [('call',) + x for x in calls(w)]
        for kind, m, args, kw in todo:
            if not cal.has(m):
                continue
            I.phase = 'caller'
            av = []
            for a in args:
                if isinstance(a, tuple):
                    cont, v = a
                    a = VArr(I, list(v), cont, 'ts', UTCZ,
                             VArr(I, list(range(len(v))), 'idx')
                             if cont == 'series' else None)
                av.append(a)
            shown = ', '.join(repr(a) for a in av)
            I.phase = 'query'
            W = Watch(I, cal.inst)
            outs = cal.attr(m) if kind == 'attr' else \
                cal.query(m, *av, **kw)
            es = [e for e in W.effects()]
            key = '%s(%s) [%s]' % (m, shown, w)
            if es:
                c.fail('query', key, '%s (write at %s:%s in %s)' % (
                    cal.site(m), es[0][2][0], es[0][2][2], es[0][2][1]),
                    tell(es[0]))
            elif all(o.kind == 'undecided' for o in outs):
                c.dunno('query', '%s: %s' % (key, outs[0].value))
            else:
                c.ok('query', sample=key)
        I.hooks.pop('write', None)
        X.done(cal)


def construction(c):
    """a calendar built from shared lists leaves them alone"""
    for brk in ('all', 'none'):
        w = World(NN, brk)
        sched._W[0] = w
        last = ladd(NN, -1)
        a, b = B.atom('so', B.SOPEN), B.atom('sc', B.SCLOSE)
        over = {
            'special_opens': B.ListLater([(a, B.rule('r', [B.ntime(0)]))]),
            'special_closes': B.ListLater([(b, B.rule('r', [B.ntime(KK)]))]),
            'special_opens_adhoc': B.ListLater(
                [(a, B.ListLater([B.ntime(KK)]))]),
            'special_closes_adhoc': B.ListLater(
                [(b, B.ListLater([B.ntime(last), B.ntime(0)]))]),
            'adhoc_holidays': B.ListLater([B.ntime(KK, B.NONLAB)]),
        }
        cal = calmodel.Cal(Q.modules(), w)
        cal.seeded = False
        I = cal.I
        I.phase = 'shared'
        for k, v in over.items():
            cal.cls.d[k] = B.deep(I, v)
        snap = {k: canon(cal.cls.d[k]) for k in over}
        I.phase = 'build'
        W = Watch(I)
        o = cal.build()
        es = [e for e in W.effects() if e[0] is not cal.inst]
        site = cal.site('__init__')
        if es and o.soft:
            c.dunno('construction', '%s %s' % (brk, tell(es[0])))
        elif es:
            c.fail('construction', 'breaks %s' % brk, '%s (write at %s:%s in '
                   '%s)' % (site, es[0][2][0], es[0][2][2], es[0][2][1]),
                   tell(es[0]))
        elif o.kind != 'return' or o.soft:
            c.dunno('construction', '%s %r' % (brk, o))
        else:
            for k in over:
                if canon(cal.cls.d[k]) != snap[k]:
                    c.fail('construction', '%s, breaks %s' % (k, brk), site,
                           'the shared list changed')
                else:
                    c.ok('construction', sample=k)
        c.functions |= {str(f) for f in I.called}


def registries(c):
    """a registry works on its own copy of the tables it was given"""
    X = R.Ctx('C21', '')
    a, b, z = R.A, R.B, R.C
    st = {a: 'inst', b: 'type', z: ('alias', b)}
    ops = [('get_calendar', (b,), {}), ('get_calendar_names', (), {}),
           ('resolve_alias', (z,), {}), ('deregister_calendar', (a,), {}),
           ('deregister_calendar', (b,), {}),
           ('deregister_calendar', (z,), {}), ('clear_calendars', (), {}),
           ('register_calendar', (R.Z, R.Token('new')), {}),
           ('register_calendar_type', (R.Z, R.Factory('n', False)), {}),
           ('register_calendar_alias', (R.Z, a), {})]
    for n in (a, b, z):
        ops += [('register_calendar', (n, R.Token('new')), {'force': True}),
                ('register_calendar_type', (n, R.Factory('n', False)),
                 {'force': True}),
                ('register_calendar_alias', (n, a if n != a else b),
                 {'force': True})]
    for op, args, kw in ops:
        r = R.Reg(X, st)
        was = [dict(d.d) for d in r.given]
        f = X.cls.lookup(op)[0]
        where = '%s:%s %s' % (X.mod.path, getattr(
            getattr(f, 'node', None), 'lineno', '?'), op)
        if not r.start() or r.call(op, *args, **kw)[0] == '?':
            c.dunno('registry', op)
        elif [dict(d.d) for d in r.given] != was:
            c.fail('registry', '%s(%s)' % (op, ', '.join(map(repr, args))),
                   where, 'changes a table given to the constructor')
        else:
            c.ok('registry', sample=op)


def c21(known):
    c = Check('C21', 'Effects (writes to objects of an earlier phase) of '
              'reading every definition of every shipped calendar twice, of '
              'every public query and attribute on a built calendar, and of '
              'a construction from shared lists.', ASSUME)
    definitions(c)
    queries(c)
    construction(c)
    registries(c)
    return c.finish(700, known)
