"""C22: the memo descriptor.

Typestate analysis: a memo slot (object, attribute) is empty or holds a value.
The descriptor is interpreted from its source under every short history of
reads, failing reads, assignments and class-level reads on two objects and two
attributes, for every kind of remembered value, and compared with the
specified memo.  What is reachable from the descriptor afterwards decides
whether the memo keeps an object alive."""
import ast
import itertools

from ..core import (AbsVal, Top, PyExc, Undecided, AnalysisError, ClassVal,
                    DictVal, ListVal, SetVal, InstVal, ModuleVal, PropVal,
                    FuncVal)
from ..report import Check, REPO
from ..fold import make_interp
from ..stdmodels import IdVal

MODULE = 'trading_calendars.utils.memoize'
NAME = 'lazyval'

CLIENT = '''
class Plain(object):
    @memo
    def a(self):
        return compute(self, 'a')
    @memo
    def b(self):
        return compute(self, 'b')
    @memo
    def nested(self):
        return compute(self, 'nested', self.a)

class Sub(Plain):
    pass
'''

ASSUME = ['weak-key dictionaries drop an entry when its object dies and '
          'otherwise behave like dictionaries keyed by the object',
          'objects of the client classes compare by identity, as calendars '
          'and errors do']


class Token(AbsVal):
    def __init__(self, label, truthy):
        self.label, self.truthy = label, truthy

    def __repr__(self):
        return '<%s>' % self.label

    def truth(self, I):
        return self.truthy

    def compare(self, I, op, other):
        if op in ('is', '=='):
            return self is other
        if op in ('is not', '!='):
            return self is not other
        return Top('order of values')


class Compute(AbsVal):
    """the memoised computation: counts its runs and may fail"""

    def __init__(self, kind):
        self.kind_, self.runs, self.fail = kind, {}, None

    def kind(self):
        return 'computation'

    def value(self, key, n):
        if self.kind_ == 'None':
            return None
        if self.kind_ == 'False':
            return False
        return Token('value %d of %s' % (n, key[1]), self.kind_ == 'true')

    def call(self, I, args, kw):
        key = (id(args[0]), args[1])
        self.runs[key] = self.runs.get(key, 0) + 1
        if self.fail:
            I.throw(self.fail, 'failing computation')
        return self.value(key, self.runs[key])


READS = [('x', 'a'), ('x', 'b'), ('y', 'a'), ('s', 'a'), ('x', 'nested')]
OPS = [('read',) + r for r in READS] + [
    ('fail', 'x', 'a', 'KeyError'), ('fail', 'x', 'a', 'ZeroDivisionError'),
    ('set', 'x', 'a'), ('class', 'Plain', 'a')]


def show(h):
    out = []
    for o in h:
        if o[0] == 'read':
            out.append('read %s.%s' % o[1:])
        elif o[0] == 'fail':
            out.append('read %s.%s failing with %s' % o[1:])
        elif o[0] == 'set':
            out.append('assign %s.%s' % o[1:])
        else:
            out.append('read %s.%s on the class' % o[1:])
    return ', '.join(out)


class World(object):
    def __init__(self, kind):
        self.I = I = make_interp(REPO)
        m = I.modules.get(MODULE)
        if m is None:
            raise AnalysisError('anchor missing: module %s' % MODULE)
        I.import_module(MODULE)
        self.memo = m.env.get(NAME)
        if self.memo is None or isinstance(self.memo, Top):
            raise AnalysisError('anchor missing: %s.%s' % (MODULE, NAME))
        c = ModuleVal('client', 'client', ast.parse(CLIENT), False)
        self.comp = Compute(kind)
        c.env['memo'], c.env['compute'] = self.memo, self.comp
        I.modules['client'] = c
        I.load(c)
        self.c = c
        self.obj = {'x': InstVal(I, c.env['Plain']),
                    'y': InstVal(I, c.env['Plain']),
                    's': InstVal(I, c.env['Sub'])}

    def run(self, f):
        I = self.I
        I.begin_path()
        I.choices = []
        I.fuel = 20000
        try:
            r = ('return', f())
        except PyExc as e:
            r = ('raise', e)
        except Undecided as e:
            return ('?', str(e))
        if I.soft:
            return ('?', I.soft[0])
        if r[0] == 'return' and isinstance(r[1], Top):
            return ('?', r[1].why)
        return r


def site(W, fn='__get__'):
    if isinstance(W.memo, ClassVal):
        f, _ = W.memo.lookup(fn)
        n = getattr(f, 'node', None) or W.memo.node
        return '%s:%d %s.%s' % (W.memo.module.path, n.lineno, W.memo.name, fn)
    return '%s:%s' % (W.I.modules[MODULE].path, NAME)


def history(W, h):
    """(verdict, text) of one history"""
    slot, comp = {}, W.comp
    runs = {}
    for i, op in enumerate(h):
        if op[0] == 'class':
            r = W.run(lambda: W.I.getattr(W.c.env[op[1]], op[2]))
            if r[0] == '?':
                return None, r[1]
            if r[0] == 'raise':
                return False, 'reading %s.%s on the class raises %s' % (
                    op[1], op[2], r[1].name())
            if comp.runs != runs:
                return False, 'reading on the class runs the computation'
            continue
        o = W.obj[op[1]]
        if op[0] == 'set':
            r = W.run(lambda: W.I.setattr(o, op[2], Token('new', True)))
            if r[0] == '?':
                return None, r[1]
            if r[0] != 'raise' or r[1].name() != 'AttributeError':
                return False, 'step %d: assignment %s instead of raising ' \
                    'AttributeError' % (i + 1, 'raises ' + r[1].name()
                                        if r[0] == 'raise' else 'succeeds')
            continue
        comp.fail = op[3] if op[0] == 'fail' else None
        r = W.run(lambda: W.I.getattr(o, op[2]))
        comp.fail = None
        if r[0] == '?':
            return None, r[1]
        need = [op[2]] if op[2] != 'nested' else ['a', 'nested']
        if (op[1], op[2]) in slot:
            need = []
        boom = None
        for a in need:
            k = (op[1], a)
            if k in slot:
                continue
            key = (id(o), a)
            runs[key] = runs.get(key, 0) + 1
            if op[0] == 'fail':
                boom = op[3]
                break
            slot[k] = (key, runs[key])
        if comp.runs != runs:
            k = next(k for k in list(comp.runs) + list(runs)
                     if comp.runs.get(k) != runs.get(k))
            return False, 'step %d: the computation of %s ran %d times, ' \
                'expected %d' % (i + 1, k[1], comp.runs.get(k, 0),
                                 runs.get(k, 0))
        if boom:
            if r[0] != 'raise':
                return False, 'step %d: the failure of the computation is ' \
                    'lost, %r returned' % (i + 1, r[1])
            if r[1].name() != boom:
                return False, 'step %d: %s becomes %s' % (i + 1, boom,
                                                          r[1].name())
            continue
        if r[0] == 'raise':
            return False, 'step %d: raises %s' % (i + 1, r[1].name())
        key, n = slot[(op[1], op[2])]
        want = comp.value(key, n)
        got = r[1]
        if isinstance(want, Token):
            ok = isinstance(got, Token) and got.label == want.label and \
                seen(W, key, got)
        else:
            ok = got is want
        if not ok:
            return False, 'step %d: returns %r, not the remembered %r' % (
                i + 1, got, want)
    return True, ''


def seen(W, key, got):
    """identical value on every read of a slot; never of two slots"""
    m = W.__dict__.setdefault('values', {})
    for k, v in m.items():
        if (v is got) != (k == key):
            return False
    m[key] = got
    return True


def holders(W, o):
    """texts of strong references from the descriptor or module to o"""
    out, done = [], set()
    todo = [(W.c.env['Plain'], 'class'), (W.I.modules[MODULE], 'module')]
    unknown = False
    while todo:
        v, path = todo.pop()
        if id(v) in done:
            continue
        done.add(id(v))
        if v is o:
            out.append(path)
            continue
        if isinstance(v, IdVal) and v.v is o:
            out.append('%s (by address: another object may get it)' % path)
            continue
        if isinstance(v, DictVal):
            for k, x in v.d.values():
                if not getattr(v, 'weak', False):
                    todo.append((k, path + ' key'))
                todo.append((x, path + ' value'))
            unknown |= bool(getattr(v, 'unknown', False))
        elif isinstance(v, (ListVal, SetVal)):
            todo += [(x, path + ' item') for x in
                     (W.I.iterate(v) if isinstance(W.I.iterate(v), list)
                      else [])]
        elif isinstance(v, (tuple, list)):
            todo += [(x, path + ' item') for x in v]
        elif isinstance(v, InstVal):
            todo += [(x, '%s.%s' % (path, k)) for k, x in v.d.items()]
        elif isinstance(v, ClassVal):
            todo += [(x, '%s.%s' % (path, k)) for k, x in v.d.items()]
        elif isinstance(v, ModuleVal):
            todo += [(x, '%s.%s' % (path, k)) for k, x in v.env.items()]
        elif hasattr(v, 'env') and hasattr(v.env, 'vars'):
            # a function's enclosing scope
            todo += [(x, '%s.%s' % (path, k))
                     for k, x in v.env.vars.items()]
    return out, unknown


def c22(known):
    c = Check('C22', 'The memo descriptor is interpreted under every history '
              'of reads, failing reads, assignments and class-level reads '
              '(two objects and one of a subclass, three attributes, four '
              'kinds of value) and compared with the specified typestate; '
              'strong references left behind are searched from the '
              'descriptor.', ASSUME)
    hs = []
    for n in (1, 2, 3):
        hs += list(itertools.product(OPS, repeat=n))
    four = [h for h in itertools.product(OPS, repeat=4)
            if h[0][0] in ('read', 'fail') and h[-1][0] == 'read']
    for kind in ('true', 'false', 'None', 'False'):
        W0 = World(kind)
        for h in hs + (four if kind == 'true' else []):
            W = fresh(W0)
            v, why = history(W, h)
            if v is True:
                c.ok('history', sample=show(h))
            elif v is False:
                c.fail('history', '%s, a computation giving a %s value' % (
                    show(h), kind), site(W, '__set__' if 'ssignment' in why
                                         else '__get__'), why)
            else:
                c.dunno('history', '%s: %s' % (show(h), why))
        c.functions |= {str(f) for f in W0.I.called}
    W = World('true')
    for h in ([('read', 'x', 'a')], [('read', 'x', 'nested')],
              [('fail', 'x', 'a', 'KeyError')],
              [('read', 'x', 'a'), ('read', 'y', 'a')]):
        W = World('true')
        v, why = history(W, h)
        if v is None:
            c.dunno('lifetime', '%s: %s' % (show(h), why))
            continue
        hold, unk = holders(W, W.obj['x'])
        if hold:
            c.fail('lifetime', 'after %s' % show(h), site(W),
                   'the object stays referenced by %s' % ', '.join(hold))
        elif unk:
            c.dunno('lifetime', show(h))
        else:
            c.ok('lifetime', sample=show(h))
    declared(c, W)
    return c.finish(1500, known)


USES = [('trading_calendars.trading_calendar', 'TradingCalendar', 'day'),
        ('trading_calendars.trading_calendar', 'TradingCalendar',
         'all_minutes'),
        ('trading_calendars.errors', 'ZiplineCalendarError', 'message')]


def remembers(f):
    """the getter may store or look up a remembered value"""
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if any(not isinstance(t, ast.Name) for t in ts):
                return True
        if isinstance(n, (ast.Try, ast.If, ast.IfExp, ast.BoolOp)):
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                and n.attr in ('__dict__', 'setdefault', '__setattr__'):
            return True
        if isinstance(n, ast.Name) and n.id in ('getattr', 'setattr', 'vars'):
            return True
    return bool(getattr(f.node, 'decorator_list', [])[1:])


def declared(c, W):
    """the attributes of calendars and errors that are memoised"""
    for mod, cls, attr in USES:
        m = W.I.modules.get(mod)
        if m is None:
            continue
        W.I.import_module(mod)
        k = m.env.get(cls)
        v = k.lookup(attr)[0] if isinstance(k, ClassVal) else None
        what = '%s.%s' % (cls, attr)
        if isinstance(v, InstVal) and v.cls is W.memo:
            c.ok('declared', sample=what)
        elif isinstance(v, PropVal) and isinstance(v.fget, FuncVal):
            n = v.fget.node
            if isinstance(n.body[-1], ast.Return) and isinstance(
                    n.body[-1].value, ast.Call) and not remembers(v.fget):
                c.fail('declared', what, '%s:%d %s' % (m.path, n.lineno, what),
                       'the value is computed again on every read')
            else:
                c.dunno('declared', what)
        else:
            c.dunno('declared', what)


def fresh(W):
    """a world with empty memos: the client classes are interpreted again"""
    I = W.I
    c = ModuleVal('client', 'client', W.c.tree, False)
    W2 = World.__new__(World)
    W2.I, W2.memo, W2.c = I, W.memo, c
    W2.comp = Compute(W.comp.kind_)
    c.env['memo'], c.env['compute'] = W2.memo, W2.comp
    I.modules['client'] = c
    I.begin_path()
    I.choices = []
    I.fuel = 20000
    I.load(c)
    W2.obj = {'x': InstVal(I, c.env['Plain']),
              'y': InstVal(I, c.env['Plain']),
              's': InstVal(I, c.env['Sub'])}
    return W2
