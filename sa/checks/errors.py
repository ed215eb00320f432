"""C23: the errors the package raises.

Every raise statement is evaluated with its local names standing for unknown
labelled values, and the resulting error is rendered through its own source;
operations with documented errors are interpreted in the situations that call
for them, and the error that arrives is rendered too."""
import ast
import re

from ..core import (AbsVal, Top, PyExc, Undecided, AnalysisError, ClassVal,
                    InstVal, ExcVal, Env, AStr, Ext, exc_sub)
from ..report import Check, REPO
from ..fold import make_interp
from . import queries as Q
from . import registry as R
from ..pdconst import UTCZ
from ..sched import T, World, VArr, LABEL, OPEN, CLOSE, NN, ladd

ASSUME = ['text formatting behaves as documented; unknown values have a '
          'text of their own'] + Q.ASSUME[:1]


class Lab(AbsVal):
    """an unknown value of a local name"""
    closed_types = False

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return '<%s>' % self.label

    def kind(self):
        return self.label

    def getattr(self, I, name):
        return Lab('%s.%s' % (self.label, name))

    def call(self, I, args, kw):
        return Lab('%s()' % self.label)

    def getitem(self, I, key):
        return Lab('%s[]' % self.label)

    def binop(self, I, op, other):
        return Lab('expression')

    rbinop = binop

    def unop(self, I, op):
        return Lab('expression')

    def host_str(self, I):
        return AStr('<%s>' % self.label)

    def host_format(self, I, spec):
        return AStr('<%s>' % self.label)


LEFT = re.compile(r'\{[A-Za-z_][\w.]*(![rsa])?(:[^{}]*)?\}|\{\d*\}|'
                  r'%(\(\w+\))?[-#0 +]*\d*(\.\d+)?[sdrif](?![A-Za-z])')


def strish(e):
    if isinstance(e, ast.Constant):
        return isinstance(e.value, str)
    if isinstance(e, ast.JoinedStr):
        return True
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Mod, ast.Add)) and strish(e.left)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        return e.func.attr in ('format', 'join', 'strip', 'lstrip', 'rstrip',
                               'dedent')
    return False


def functions(tree):
    """(function node or None, its enclosing function nodes, raise nodes and
    expression statements)"""
    out = []

    def visit(n, stack):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                visit(ch, stack + [ch])
            elif isinstance(ch, ast.ClassDef):
                visit(ch, stack)
            else:
                if isinstance(ch, ast.Raise) and ch.exc is not None:
                    out.append(('raise', ch, ch.exc, stack))
                elif isinstance(ch, ast.Expr) and isinstance(ch.value,
                                                             ast.Call):
                    out.append(('drop', ch, ch.value, stack))
                visit(ch, stack)
    visit(tree, [])
    return out


def locals_of(fn):
    names, single = set(), {}
    a = fn.args
    for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs:
        names.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            names.add(x.arg)
    glob = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                isinstance(n.targets[0], ast.Name):
            single.setdefault(n.targets[0].id, []).append(n.value)
    for n in ast.walk(fn):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            single.setdefault(n.target.id, []).extend([None, None])
    return names - glob, {k: v[0] for k, v in single.items()
                          if len(v) == 1 and strish(v[0])}


class Sites(object):
    def __init__(self, c):
        self.c = c
        self.I = I = make_interp(REPO)
        I.fuel = 10 ** 8
        for name in sorted(I.modules):
            if not name.endswith('_version'):
                try:
                    I.import_module(name)
                except (PyExc, Undecided):
                    pass

    def env(self, m, stack):
        env = Env(None, m)
        env.vars = m.env
        pend = {}
        for fn in stack:
            e = Env(env, m)
            names, single = locals_of(fn)
            for n in names:
                e.vars[n] = Lab(n)
                pend.pop(n, None)
            for n, x in single.items():
                pend[n] = (e, x)
            env = e
        for _ in (1, 2):
            for n, (e, x) in pend.items():
                try:
                    v = self.I.eval(x, env)
                except (PyExc, Undecided):
                    continue
                if isinstance(v, str):
                    e.vars[n] = v
        return env

    def render(self, v):
        """('text', t) | ('fail', why) | ('?', why)"""
        I = self.I
        if isinstance(v, ClassVal):
            try:
                v = I.call(v, [], {})
            except PyExc as e:
                return 'fail', 'raising it fails with %s' % e.name()
        if isinstance(v, Ext):
            return 'text', ''
        if isinstance(v, ExcVal):
            a = v.args
            if not a:
                return 'text', ''
            parts = []
            for x in a:
                if isinstance(x, str):
                    parts.append(str(x))
                elif isinstance(x, Lab):
                    parts.append('<%s>' % x.label)
                elif isinstance(x, Top):
                    return '?', x.why
                else:
                    parts.append(str(I.host_str(x)))
            return 'text', ', '.join(parts)
        if isinstance(v, InstVal):
            if not exception(I, v.cls):
                return 'fail', 'not an exception'
            m, cl = v.cls.lookup('__str__')
            if m is None:
                args = v.d.get('args')
                return 'text', ''
            try:
                from ..core import BoundMethod
                t = I.call(BoundMethod(v, m), [], {})
            except PyExc as e:
                w = getattr(e.val, 'args', None)
                return 'fail', 'its text cannot be made: %s %s' % (
                    e.name(), w[0] if w else '')
            if isinstance(t, str):
                return 'text', str(t)
            if isinstance(t, Top):
                return '?', t.why
            return 'fail', 'its text is no string'
        if isinstance(v, (Top, Lab)):
            return '?', 'unknown error'
        return 'fail', 'raises a value that is no exception'

    def one(self, m, kind, node, expr, stack):
        I, c = self.I, self.c
        fn = '.'.join(f.name for f in stack) or '<module>'
        where = '%s:%d %s' % (m.path, node.lineno, fn)
        I.begin_path()
        I.choices = []
        I.fuel = 100000
        env = self.env(m, stack)
        if kind == 'drop':
            r = expr.func
            while isinstance(r, ast.Attribute):
                r = r.value
            if not isinstance(r, ast.Name) or isinstance(
                    env.vars.get(r.id), Lab):
                return
            try:
                f = I.eval(expr.func, env)
            except (PyExc, Undecided):
                return
            if (isinstance(f, ClassVal) and exception(I, f)) or (
                    isinstance(f, Ext) and isexc(f.path)):
                c.fail('dropped', '%s in %s' % (
                    ast.unparse(expr.func), fn), where,
                    'the error is made but never raised')
            return
        key = 'raise in %s: %s' % (fn, ast.unparse(expr)[:60])
        if isinstance(expr, ast.Name) and isinstance(
                env.vars.get(expr.id), Lab):
            c.ok('site', sample=where)       # re-raise of a caught error
            return
        try:
            v = I.eval(expr, env)
        except PyExc as e:
            w = getattr(e.val, 'args', None)
            return c.fail('site', key, where,
                          'making the error fails with %s %s' % (
                              e.name(), w[0] if w else ''))
        except Undecided as e:
            return c.dunno('site', '%s: %s' % (where, e))
        k, t = self.render(v)
        if k == 'text' and LEFT.search(t):
            k, t = 'fail', 'the text keeps the placeholder %s' % \
                LEFT.search(t).group()
        if k == 'fail':
            c.fail('site', key, where, t)
        elif k == '?':
            c.dunno('site', '%s: %s' % (where, t))
        else:
            missing = [x.label for x in values(v)
                       if '<%s>' % x.label not in t]
            if missing:
                c.fail('site', key, where, 'the text lacks the value %s' %
                       missing[0])
            else:
                c.ok('site', sample='%s: %s' % (where, t.strip()[:60]))

    def templates(self):
        I, c = self.I, self.c
        import string
        m = I.modules.get(R.ERR)
        if m is None:
            raise AnalysisError('anchor missing: module %s' % R.ERR)
        for n, k in sorted(m.env.items()):
            if not isinstance(k, ClassVal) or k.module is not m or \
                    not exception(I, k):
                continue
            msg, _ = k.lookup('msg')
            if not isinstance(msg, str):
                continue
            where = '%s:%d %s' % (m.path, k.node.lineno, n)
            try:
                fields = [f[1] for f in string.Formatter().parse(str(msg))
                          if f[1] is not None]
            except ValueError as e:
                c.fail('template', n, where, str(e))
                continue
            if any(not re.match(r'^[A-Za-z_]\w*', f) for f in fields):
                c.fail('template', n, where, 'the template asks for a value '
                       'without a name')
                continue
            names = {re.match(r'\w+', f).group() for f in fields}
            I.begin_path()
            I.choices = []
            try:
                v = I.call(k, [], {x: Lab(x) for x in names})
            except PyExc as e:
                c.fail('template', n, where, 'making it fails with %s' %
                       e.name())
                continue
            s, t = self.render(v)
            if s == 'text' and (LEFT.search(t) or any(
                    '<%s>' % x not in t for x in names)):
                s, t = 'fail', 'a value is not substituted: %r' % t
            if s == 'fail':
                c.fail('template', n, where, t)
            elif s == '?':
                c.dunno('template', '%s: %s' % (where, t))
            else:
                c.ok('template', sample='%s: %s' % (n, t[:60]))

    def run(self):
        n = 0
        for name in sorted(self.I.modules):
            if name.endswith('_version'):
                continue
            m = self.I.modules[name]
            for kind, node, expr, stack in functions(m.tree):
                self.one(m, kind, node, expr, stack)
        self.templates()


def values(v):
    """the labelled values a rendered error was given by keyword"""
    if isinstance(v, InstVal):
        kw = v.d.get('kwargs')
        d = getattr(kw, 'd', None)
        if isinstance(d, dict):
            return [x for _, x in d.values() if isinstance(x, Lab)]
    return []


def isexc(path):
    import builtins
    b = getattr(builtins, path.split('.')[-1], None)
    return path.startswith('builtins.') and isinstance(b, type) and \
        issubclass(b, BaseException)


def exception(I, cls):
    for b in cls.ext_bases():
        if isinstance(b, Ext) and isexc(b.path):
            return True
    return False


# ------------------------------------------------- documented errors


def arrives(S, names, o, text=()):
    r = Q.raises(o, *names)
    if r is not True:
        return r
    k, t = S.render(o.value.val)
    if k == '?':
        return True
    return k == 'text' and not LEFT.search(t) and all(x in t for x in text)


def calendars(S):
    X = Q.Ctx('C23', '')
    X.c = S.c
    mi = 'minute_index_to_session_labels'
    for w in (World(NN), World(NN, 'none'), World(1), World(2, 'none')):
        cal = X.cal(w)
        I = cal.I
        pts = Q.fix(w, lambda: Q.points(w))
        last = T(ladd(w.n, -1), LABEL)
        first = T(0, LABEL)

        def ask(nm, what, outs, *names):
            X.ask(cal, 'documented', '%s must end in %s' % (
                what, ' or '.join(names)), outs,
                lambda o: arrives(S, names, o), nm)
        if cal.has('next_session_label'):
            ask('next_session_label', 'next_session_label(last session)',
                cal.query('next_session_label', last), 'ValueError')
        if cal.has('previous_session_label'):
            ask('previous_session_label',
                'previous_session_label(first session)',
                cal.query('previous_session_label', first), 'ValueError')
        nm = 'minute_to_session_label'
        if cal.has(nm):
            for t in pts:
                inside = Q.container(w, t) is not None
                if not inside or Q.in_break(w, t):
                    ask(nm, '%s(%r, none)' % (nm, t),
                        cal.query(nm, t, direction='none'),
                        'ValueError', 'KeyError', 'IndexError')
                ask(nm, '%s(%r, sideways)' % (nm, t),
                    cal.query(nm, t, direction='sideways'), 'ValueError',
                    'IndexError')
        if cal.has(mi):
            ins = [p for p in pts if Q.container(w, p) is not None]
            for p in pts:
                if Q.container(w, p) is None:
                    ask(mi, '%s([%r])' % (mi, p), cal.query(
                        mi, VArr(I, [p], 'idx', 'ts', UTCZ)), 'ValueError')
            for a, b in zip(ins, ins[1:]):
                ask(mi, '%s([%r, %r])' % (mi, b, a), cal.query(
                    mi, VArr(I, [b, a], 'idx', 'ts', UTCZ)), 'ValueError')
        X.done(cal)


def registry(S):
    """lookups and registrations that must fail, with the names in the text"""
    c = S.c
    X = R.Ctx('C23', '')
    a, b, z = R.A, R.B, R.Z
    col, cyc, inv = ('CalendarNameCollision', 'CyclicCalendarAlias',
                     'InvalidCalendarName')
    todo = [('get_calendar', {}, (z,), inv, [z]),
            ('get_calendar', {a: 'inst'}, (z,), inv, [z]),
            ('get_calendar', {a: ('alias', z)}, (a,), inv, []),
            ('get_calendar', {a: ('alias', a)}, (a,), cyc, [a]),
            ('get_calendar', {a: ('alias', b), b: ('alias', a)}, (a,), cyc,
             [a, b]),
            ('resolve_alias', {a: ('alias', b), b: ('alias', a)}, (b,), cyc,
             [a, b])]
    for st in ('inst', 'type', ('alias', b)):
        st = {a: st, b: 'inst'}
        todo += [('register_calendar', st, (a, R.Token('new')), col, [a]),
                 ('register_calendar_type', st, (a, R.Factory('n', False)),
                  col, [a]),
                 ('register_calendar_alias', st, (a, b), col, [a])]
    todo += [('register_calendar_alias', {b: ('alias', a)}, (a, b), cyc,
              [a, b]),
             ('register_calendar_alias', {}, (a, a), cyc, [a]),
             ('register_calendar_alias', {a: 'inst'}, (a, a, True), cyc,
              [a])]
    for op, st, args, cls, names in todo:
        r = R.Reg(X, st)
        key = '%s(%s) with %s' % (op, ', '.join(map(repr, args)), r.m)
        f = X.cls.lookup(op)[0]
        where = '%s:%s %s' % (X.mod.path, getattr(
            getattr(f, 'node', None), 'lineno', '?'), op)
        if not r.start():
            c.dunno('registry', '%s: dispatcher not built' % where)
            continue
        o = r.call(op, *args)
        ok, why = r.raised(o, cls)
        if ok:
            k, t = Sites.render(X, o[1].val)
            if k == '?' or isinstance(t, AStr):
                ok, why = None, t
            elif k == 'fail':
                ok, why = False, t
            elif LEFT.search(t):
                ok, why = False, 'the text is %r' % t
            else:
                lack = [n for n in names if n not in t]
                if lack:
                    ok, why = False, 'the text %r lacks %s' % (t, lack[0])
        if ok:
            c.ok('registry', sample=key)
        elif ok is False:
            c.fail('registry', key, where, why)
        else:
            c.dunno('registry', '%s: %s' % (key, why))


def construction(S):
    from . import building as B
    from .. import sched
    c = S.c
    w = World(NN, 'all')
    sched._W[0] = w
    for which, slot in (('opens', B.SOPEN), ('closes', B.SCLOSE)):
        for how, k in (('rule', 1), ('adhoc', 1), ('rule', 2), ('adhoc', 2)):
            a = B.atom('special', slot)
            bad = [B.ntime(ladd(B.KK, i), B.NONLAB) for i in range(k)]
            over = {}
            if how == 'rule':
                over['special_' + which] = B.ListLater(
                    [(a, B.rule('r', bad))])
            else:
                over['special_%s_adhoc' % which] = B.ListLater(
                    [(a, B.ListLater(bad))])
            cal, o = B.build2(w, over)
            c.paths('documented', 'building with special %s (%s) on %d '
                    'non-session(s) must end in ValueError' % (
                        which, how, k),
                    cal.site('__init__'), [o], lambda o: arrives(
                        S, ['ValueError'], o) if o.kind == 'raise' else
                    (None if o.soft else False))


def c23(known):
    c = Check('C23', 'Every raise statement of the package is evaluated with '
              'unknown values for its local names and the error rendered '
              'through its own source; documented errors are provoked by '
              'interpretation and must arrive and render.', ASSUME)
    S = Sites(c)
    S.run()
    calendars(S)
    registry(S)
    construction(S)
    c.functions |= {str(f) for f in S.I.called}
    return c.finish(60, known)
