"""C27: what an installed copy needs is there.

Names, attributes, imports, exports and the installation recipe are resolved
against each other without importing anything."""
import ast
import builtins
import fnmatch
import os
import re
import symtable
import sys

from ..core import (AnalysisError, ClassVal, Ext, PyExc, Undecided, Top,
                    FuncVal, ListVal)
from ..report import Check, REPO
from ..fold import make_interp, PKG

SCRIPTS = ('etc/bench.py', 'etc/check_holidays.py', 'etc/lunisolar',
           'etc/make_trading_calendar_test_csv.py', 'etc/tcal', 'setup.py')
IMPLICIT = set(dir(builtins)) | {
    '__name__', '__file__', '__doc__', '__path__', '__package__', '__spec__',
    '__loader__', '__builtins__', '__annotations__', '__qualname__',
    '__module__', '__class__', '__dict__',
    # Python 2
    'unicode', 'basestring', 'long', 'xrange', 'raw_input', 'reduce', 'cmp',
    'unichr', 'reload'}
DIST = {'dateutil': 'python-dateutil', 'yaml': 'pyyaml', 'attr': 'attrs',
        'sklearn': 'scikit-learn', 'pkg_resources': 'setuptools'}
STDLIB = set(getattr(sys, 'stdlib_module_names', ())) | {'__future__'}


def norm(dist):
    return re.sub(r'[-_.]+', '-', dist).lower()


def load(rel):
    p = os.path.join(REPO, rel)
    if not os.path.isfile(p):
        return None, None
    with open(p, encoding='utf-8') as fh:
        src = fh.read()
    try:
        return src, ast.parse(src, rel)
    except SyntaxError:
        return src, None


# ------------------------------------------------------------------- names


def star(tree):
    return any(isinstance(n, ast.ImportFrom) and any(a.name == '*'
                                                     for a in n.names)
               for n in ast.walk(tree))


def lines(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.setdefault(n.id, []).append(n.lineno)
    return out


def guarded_names(tree):
    """names whose absence is caught where they are used"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and any(
                h.type is None or any(
                    isinstance(t, ast.Name) and t.id in (
                        'NameError', 'Exception', 'BaseException')
                    for t in ast.walk(h.type)) for h in n.handlers):
            for b in n.body:
                out.update(x.id for x in ast.walk(b)
                           if isinstance(x, ast.Name))
    return out


def names(c, rel, src, tree):
    """every name read anywhere is bound somewhere it can be seen"""
    if star(tree):
        c.dunno('names', '%s imports everything from a module' % rel)
        return
    top = symtable.symtable(src, rel, 'exec')
    bound = {s.get_name() for s in top.get_symbols()
             if s.is_assigned() or s.is_imported() or s.is_namespace()}

    def scan(t):
        # names a function declares global and binds
        for s in t.get_symbols():
            if s.is_declared_global() and s.is_assigned():
                bound.add(s.get_name())
        for k in t.get_children():
            scan(k)
    scan(top)
    where = lines(tree)
    soft = guarded_names(tree)

    def visit(t):
        for s in t.get_symbols():
            n = s.get_name()
            if not s.is_referenced():
                continue
            if t.get_type() == 'module':
                glob = not (s.is_assigned() or s.is_imported() or
                            s.is_namespace())
            else:
                glob = s.is_global()
            if not glob:
                continue
            if n in bound or n in IMPLICIT or n in soft:
                c.ok('names')
            else:
                ls = where.get(n, [t.get_lineno()])
                c.fail('names', '%s reads the name %s' % (t.get_name(), n),
                       '%s:%s' % (rel, ls[0]), 'it is bound nowhere')
        for k in t.get_children():
            visit(k)
    visit(top)


# -------------------------------------------------------------- attributes


def self_reads(fn):
    """(attribute, line) of loads through the first parameter"""
    if not fn.args.args:
        return
    me = fn.args.args[0].arg
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == me and \
                isinstance(n.ctx, ast.Store):
            return
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
                isinstance(n.value, ast.Name) and n.value.id == me:
            yield n.attr, n.lineno


def self_writes(node):
    for fn in node.body:
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) and \
                fn.args.args:
            me = fn.args.args[0].arg
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)) and \
                        isinstance(n.value, ast.Name) and n.value.id == me:
                    yield n.attr
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == 'setattr' and \
                        len(n.args) > 1:
                    yield n.args[1].value if isinstance(
                        n.args[1], ast.Constant) else None


PLAIN = {'builtins.object', 'object', 'abc.ABC'}


def attributes(c, classes):
    """what a method reads from its object is defined by some class of it"""
    for k in classes:
        if k.node is None:
            continue
        fam = [x for x in classes if x is k or x.subclass_of(k)] + \
            [x for x in k.mro if isinstance(x, ClassVal)]
        # mixins: whatever is combined with it may define the rest
        for x in list(fam):
            fam += [y for y in x.mro if isinstance(y, ClassVal)]
        opaque = any(isinstance(b, (Ext, Top)) and
                     getattr(b, 'path', '?') not in PLAIN
                     for x in fam for b in x.ext_bases())
        have = set(dir(object)) | {'__dict__', '__weakref__', '__module__'}
        dyn = False
        for x in fam:
            have.update(x.d)
            if '__getattr__' in x.d or '__getattribute__' in x.d:
                dyn = True
            if x.node is not None:
                for w in self_writes(x.node):
                    if w is None:
                        dyn = True
                    else:
                        have.add(w)
        if opaque or dyn:
            continue
        for fn in k.node.body:
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            deco = {d.id for d in fn.decorator_list
                    if isinstance(d, ast.Name)}
            if deco & {'staticmethod'}:
                continue
            for a, line in self_reads(fn):
                if a in have:
                    c.ok('attributes')
                else:
                    c.fail('attributes', '%s.%s reads the attribute %s' % (
                        k.name, fn.name, a), '%s:%s' % (k.module.path, line),
                        'no class of the object defines or assigns it')


# ----------------------------------------------------------------- imports


def optional(tree):
    """import statements whose failure is handled, or that are made on some
    platforms only"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and not isinstance(n.test, ast.Constant):
            for b in n.body + n.orelse:
                out.update(x for x in ast.walk(b) if isinstance(
                    x, (ast.Import, ast.ImportFrom)))
        if isinstance(n, ast.Try) and any(
                h.type is None or any(
                    isinstance(t, ast.Name) and t.id in (
                        'ImportError', 'ModuleNotFoundError', 'Exception',
                        'BaseException') for t in ast.walk(h.type))
                for h in n.handlers):
            parts = list(n.body)
            for h in n.handlers:
                parts += h.body
            for b in parts:
                out.update(x for x in ast.walk(b) if isinstance(
                    x, (ast.Import, ast.ImportFrom)))
    return out


def external(tree):
    skip = optional(tree)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Import):
            for a in n.names:
                yield a.name.split('.')[0], n.lineno
        elif isinstance(n, ast.ImportFrom) and not n.level:
            yield n.module.split('.')[0], n.lineno


def inner(tree, modname, ispkg):
    """(module, imported name or None, line) of imports from the package"""
    skip = optional(tree)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split('.')[0] == PKG:
                    yield a.name, None, n.lineno
        elif isinstance(n, ast.ImportFrom):
            if n.level:
                parts = modname.split('.')
                if not ispkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                m = '.'.join(parts + ([n.module] if n.module else []))
            elif n.module.split('.')[0] == PKG:
                m = n.module
            else:
                continue
            for a in n.names:
                yield m, a.name, n.lineno


# ------------------------------------------------------------ installation


class Recipe(object):
    def __init__(self, tree):
        self.env = {}
        self.call = None
        for n in tree.body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.env[t.id] = n.value
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and (
                    getattr(n.func, 'id', None) == 'setup' or
                    getattr(n.func, 'attr', None) == 'setup'):
                self.call = n

    def value(self, e, depth=0):
        """python value of an expression, or None when it is not plain"""
        if depth > 8 or e is None:
            return None
        if isinstance(e, ast.Name):
            return self.value(self.env.get(e.id), depth + 1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.value(e.left, depth + 1), self.value(e.right,
                                                             depth + 1)
            try:
                return a + b
            except TypeError:
                return None
        if isinstance(e, (ast.List, ast.Tuple)):
            out = [self.value(x, depth + 1) for x in e.elts]
            return None if None in out else out
        if isinstance(e, ast.Dict):
            return {self.value(k, depth + 1): self.value(v, depth + 1)
                    for k, v in zip(e.keys, e.values) if k is not None}
        try:
            return ast.literal_eval(e)
        except ValueError:
            return None

    def kw(self, name):
        return next((k.value for k in self.call.keywords if k.arg == name),
                    None)


def packages():
    """dotted names of the directories holding modules, and whether each is
    an importable package"""
    out = {}
    base = os.path.join(REPO, PKG)
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        if any(f.endswith('.py') for f in files):
            out[os.path.relpath(d, REPO).replace(os.sep, '.')] = \
                '__init__.py' in files
    return out


def install(c, I, used):
    src, tree = load('setup.py')
    if tree is None:
        c.dunno('install', 'setup.py is missing or not readable')
        return
    R = Recipe(tree)
    if R.call is None:
        c.dunno('install', 'no setup() call')
        return
    site = 'setup.py:%s' % R.call.lineno
    # packages
    pk = packages()
    e = R.kw('packages')
    for p, ok in sorted(pk.items()):
        if not ok:
            # a directory without __init__ is not found as a package
            c.fail('packages', '%s is a package' % p, p.replace('.', '/'),
                   'no __init__.py')
            continue
        v = None
        if isinstance(e, ast.Call):
            inc = exc = None
            for k in e.keywords:
                if k.arg == 'include':
                    inc = R.value(k.value)
                elif k.arg == 'exclude':
                    exc = R.value(k.value)
            names_ = {k.arg for k in e.keywords}
            if not e.args and names_ <= {'include', 'exclude'} and \
                    ('include' not in names_ or inc is not None) and \
                    ('exclude' not in names_ or exc is not None):
                v = any(fnmatch.fnmatchcase(p, x)
                        for x in (['*'] if inc is None else inc)) and \
                    not any(fnmatch.fnmatchcase(p, x) for x in exc or ())
        else:
            ls = R.value(e)
            if isinstance(ls, list):
                v = p in ls
        c.decide('packages', 'the package %s is installed' % p, site, v, '')
    # requirements
    reqs = R.value(R.kw('install_requires'))
    have = None
    if isinstance(reqs, list):
        have = {norm(re.split(r'[\s<>=!~;\[]', r.strip())[0]) for r in reqs}
    for top, where in sorted(used.items()):
        dist = norm(DIST.get(top, top))
        c.decide('requirements', 'the third-party module %s is a declared '
                 'dependency' % top, where, None if have is None
                 else dist in have, dist)
    # commands
    ep = R.value(R.kw('entry_points'))
    cmds = ep.get('console_scripts') if isinstance(ep, dict) else None
    if not isinstance(cmds, list):
        c.dunno('commands', 'entry points are not plain')
        return
    for x in cmds:
        m = re.match(r'^\s*([\w.-]+)\s*=\s*([\w.]+)\s*:\s*([\w.]+)\s*$', x)
        if not m:
            c.fail('commands', 'entry point %r' % x, site, 'malformed')
            continue
        mod, fn = m.group(2), m.group(3)
        v = None
        if mod.split('.')[0] == PKG:
            if mod not in I.modules:
                v = False
            else:
                f = I.modules[mod].env.get(fn)
                v = True if isinstance(f, FuncVal) else \
                    False if f is None else None
                if v and required(f):
                    v = False
        c.decide('commands', 'the command %s runs %s:%s' % (m.group(1), mod,
                                                            fn), site, v, '')


def required(f):
    a = f.node.args
    return len(a.args) > len(f.defaults)


# -------------------------------------------------------------------- check


def c27(known):
    c = Check('C27', 'Every name, object attribute, import, exported name '
              'and declared command in the sources is resolved to its '
              'definition, and every third-party import to a declared '
              'dependency.', [
                  'attributes of third-party modules and of objects with '
                  'third-party bases are not resolved'])
    I = make_interp(REPO)
    used, mods = {}, {}
    for m in sorted(I.modules):
        mod = I.modules[m]
        key = 'module %s can be imported' % m
        try:
            I.begin_path()
            I.import_module(m)
            c.ok('import', sample=key)
        except PyExc as e:
            site = '%s:%s' % (e.site[0], e.site[2]) \
                if getattr(e, 'site', None) else mod.path
            c.decide('import', key, site, None if e.model_gap() else False,
                     'raises %s' % e.name())
        except Undecided as e:
            c.dunno('import', '%s: %s' % (key, e))
    for m in sorted(I.modules):
        mod = I.modules[m]
        mods[mod.path] = m
        src, tree = load(mod.path)
        if tree is None:
            raise AnalysisError('cannot parse %s' % mod.path)
        names(c, mod.path, src, tree)
        for top, line in external(tree):
            if top not in STDLIB and top != PKG:
                used.setdefault(top, '%s:%s' % (mod.path, line))
        inside(c, I, mod.path, inner(tree, m, mod.package), True)
        al = mod.env.get('__all__')
        it = I.iterate(al) if isinstance(al, (ListVal, tuple)) else None
        for x in it if isinstance(it, list) else ():
            if isinstance(x, str):
                c.decide('exports', '%s exports %s' % (m, x), mod.path,
                         x in mod.env or m + '.' + x in I.modules,
                         'bound nowhere')
    for rel in SCRIPTS:
        src, tree = load(rel)
        if src is None:
            continue
        if tree is None:
            c.fail('script', '%s can be read' % rel, rel, 'syntax error')
            continue
        names(c, rel, src, tree)
        inside(c, I, rel, inner(tree, '', True), False)
    attributes(c, classes(I))
    install(c, I, used)
    c.functions = set(mods)
    c.extra['third_party'] = sorted(used)
    return c.finish(600, known)


def inside(c, I, rel, imports, private):
    for m, nm, line in imports:
        site = '%s:%s' % (rel, line)
        key = '%s imports %s from %s' % (rel, nm or 'it', m)
        if m not in I.modules:
            if m == PKG + '._version':
                continue
            c.fail('own imports', key, site, 'there is no such module')
            continue
        if nm is None or nm == '*' or (nm.startswith('_') and not private):
            continue
        env = I.modules[m].env
        c.decide('own imports', key, site, nm in env or
                 m + '.' + nm in I.modules or nm == '_version',
                 'it defines no such name')


def classes(I):
    out = []
    for m in sorted(I.modules):
        for v in I.modules[m].env.values():
            if isinstance(v, ClassVal) and v.module is I.modules[m] and \
                    v not in out:
                out.append(v)
    return out
