"""Abstract interpreter over the syntax tree of the analysed package.

The analysed package is never imported or executed.  Its modules are parsed
with :mod:`ast`; statements are transfer functions over abstract values.

* constants are folded;
* containers, functions, classes and instances of the package are tracked in
  an abstract heap with an owner tag (used by the effect analysis);
* everything imported from outside the package is a dotted name, given a
  meaning by a table of models (see ``stdmodels``, ``pdconst``, ``order`` and
  ``build``); a name without a model evaluates to ``Top``;
* a branch on ``Top`` is analysed both ways (``Interp.choose``) and whatever is
  concluded on such a path is only a *may* fact;
* a branch on a declared case split (``Interp.split``) is analysed both ways
  and stays a *must* fact, because every case is feasible.
"""
import ast
import operator
import os
import re


class AnalysisError(Exception):
    """The analyser cannot do its work (anchor vanished, syntax error...)."""


class Undecided(Exception):
    """The current path cannot be analysed further."""


# --------------------------------------------------------------------------
# values


class AbsVal(object):
    """Base of all abstract values.

    ``m_<name>`` methods model method calls, ``a_<name>`` model attributes.
    """
    types = ()          # dotted external types this value is an instance of
    closed_types = True
    python = None       # builtin type with exactly the attributes of this

    def getattr(self, I, name):
        m = getattr(self, 'a_' + name, None)
        if m is not None:
            return m(I)
        m = getattr(self, 'm_' + name, None)
        if m is not None:
            return BoundModel(self, name, m)
        if self.python is not None and not hasattr(self.python, name):
            I.no_attribute(name)
        return Top('attribute %s of %s' % (name, self.kind()))

    def kind(self):
        return type(self).__name__

    def setattr(self, I, name, value):
        I.soften('attribute write on %s' % self.kind())

    def call(self, I, args, kw):
        return Top('call of %s' % self.kind())

    def getitem(self, I, key):
        return Top('item of %s' % self.kind())

    def setitem(self, I, key, value):
        I.soften('item write on %s' % self.kind())

    def binop(self, I, op, other):
        return NotImplemented

    def rbinop(self, I, op, other):
        return NotImplemented

    def unop(self, I, op):
        return Top('unary op on %s' % self.kind())

    def compare(self, I, op, other):
        return NotImplemented

    def truth(self, I):
        return None

    def iter(self, I):
        return Top('iteration over %s' % self.kind())

    def len(self, I):
        return Top('len of %s' % self.kind())

    def contains(self, I, x):
        return Top('containment in %s' % self.kind())

    def isinstance_of(self, I, path):
        for t in self.types:
            if t == path:
                return True
        return False if self.closed_types else None


class Top(AbsVal):
    """No information."""
    closed_types = False

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why

    def getattr(self, I, name):
        return Top(self.why)

    def call(self, I, args, kw):
        I.havoc_args(args, kw)
        return Top(self.why)

    def getitem(self, I, key):
        return Top(self.why)

    def binop(self, I, op, other):
        return Top(self.why)

    rbinop = binop

    def unop(self, I, op):
        return Top(self.why)

    def compare(self, I, op, other):
        return Top(self.why)

    def iter(self, I):
        return self

    def len(self, I):
        return self

    def contains(self, I, x):
        return self

    def isinstance_of(self, I, path):
        return None


class AStr(str):
    """A string with an abstract part: its text is not a known constant."""


def safe_model(fn, I, args, kw, what):
    """Call a model; an argument form the model does not know is Top."""
    try:
        return fn(I, *args, **kw)
    except TypeError as e:
        tb = e.__traceback__.tb_next
        if tb is None:
            I.havoc_args(args, kw)
            return Top('arguments of ' + what)
        raise


class BoundModel(AbsVal):
    def __init__(self, obj, name, fn):
        self.obj, self.name, self.fn = obj, name, fn

    def call(self, I, args, kw):
        return safe_model(self.fn, I, args, kw,
                          '%s.%s' % (self.obj.kind(), self.name))

    def compare(self, I, op, other):
        if op in ('is', 'is not'):
            return op == 'is not' if not isinstance(other, Top) else Top()
        if op in ('==', '!=') and not isinstance(other, AbsVal):
            return op == '!='
        return NotImplemented

    def truth(self, I):
        return True


class Ext(AbsVal):
    """Something imported from outside the package, by dotted path."""
    closed_types = False

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ext(%s)' % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def getattr(self, I, name):
        return I.ext(self.path + '.' + name)

    def call(self, I, args, kw):
        if isinstance(kw.get('out'), AbsVal) and \
                self.path.startswith('numpy.'):
            I.soften('result of %s written into an array' % self.path)
            f = getattr(kw['out'], 'setitem', None)
            if f is not None:
                f(I, Top('every element'), Top('written value'))
            return kw['out']
        m = I.models.get(self.path)
        if m is None:
            I.unmodelled.add(self.path)
            I.havoc_args(args, kw)
            return Top('unmodelled ' + self.path)
        return safe_model(m, I, args, kw, self.path)

    def compare(self, I, op, other):
        if isinstance(other, Ext) and op in ('==', '!=', 'is', 'is not'):
            same = self.path == other.path
            return same if op in ('==', 'is') else not same
        if op in ('is', 'is not') and not isinstance(other, Top):
            return op == 'is not'
        return NotImplemented

    def truth(self, I):
        return True


class Mutable(AbsVal):
    owner = None

    def init(self, I):
        self.owner = I.phase
        self.born = I.where()


class ListVal(Mutable):
    types = ('builtins.list',)
    python = list

    def __init__(self, I, items):
        self.items = list(items)
        self.loops = len(I.symloop)
        self.init(I)

    def __repr__(self):
        return 'List%r' % (self.items,)

    def iter(self, I):
        return self.items

    def len(self, I):
        if any(isinstance(x, Rep) for x in self.items):
            return Top('len of repeated list')
        return len(self.items)

    def truth(self, I):
        return bool(self.items)

    def getitem(self, I, key):
        if isinstance(key, slice):
            try:
                return ListVal(I, self.items[key])
            except TypeError:
                return Top('list slice')
        if isinstance(key, (int, bool)):
            try:
                return self.items[key]
            except IndexError:
                I.throw('IndexError', 'list index out of range')
        return Top('list item')

    def setitem(self, I, key, value):
        I.write(self, 'item assignment')
        if isinstance(key, (int, bool)):
            try:
                self.items[key] = value
                return
            except IndexError:
                I.throw('IndexError', 'list assignment index out of range')
        if isinstance(key, slice):
            it = I.iterate(value)
            if isinstance(it, list):
                self.items[key] = it
                return
        for i in range(len(self.items)):
            self.items[i] = Top('weak update')

    def delitem(self, I, key):
        I.write(self, 'item deletion')
        if isinstance(key, (int, slice)):
            try:
                del self.items[key]
            except IndexError:
                I.throw('IndexError', 'list assignment index out of range')
        else:
            I.soften('del on list')

    def contains(self, I, x):
        return I.any_eq(self.items, x)

    def binop(self, I, op, other):
        if op == '+' and isinstance(other, ListVal):
            return ListVal(I, self.items + other.items)
        if op == '*' and isinstance(other, int):
            return ListVal(I, self.items * other)
        if op in '+*' and isinstance(other, (Top,)):
            return Top('list arithmetic')
        return NotImplemented

    def rbinop(self, I, op, other):
        if op == '*' and isinstance(other, int):
            return ListVal(I, self.items * other)
        return NotImplemented

    def iadd(self, I, op, other):
        if op == '+':
            self.m_extend(I, other)
            return self
        return NotImplemented

    def compare(self, I, op, other):
        if op in ('is', 'is not'):
            return (self is other) == (op == 'is')
        if isinstance(other, ListVal) and op in ('==', '!='):
            r = I.seq_eq(self.items, other.items)
            return r if op == '==' or isinstance(r, Top) else not r
        if op in ('==', '!=') and not isinstance(other, Top):
            if other is None or isinstance(other, (str, int, tuple)):
                return op == '!='
        return NotImplemented

    def m_append(self, I, x):
        I.write(self, 'append')
        self.items.append(I.rep(x, self.loops))

    def m_extend(self, I, xs):
        I.write(self, 'extend')
        it = I.iterate(xs)
        if isinstance(it, Top):
            self.items.append(Rep([Top('extend')]))
        elif isinstance(it, SymSeq):
            self.items.append(Rep([it.generic(I)], it))
        else:
            self.items.extend(I.rep(x, self.loops) for x in it)

    def m_insert(self, I, i, x):
        I.write(self, 'insert')
        if isinstance(i, int) and len(I.symloop) <= self.loops:
            self.items.insert(i, x)
        else:
            I.soften('insert')

    def m_pop(self, I, i=-1):
        I.write(self, 'pop')
        if not isinstance(i, int):
            return Top('pop')
        try:
            return self.items.pop(i)
        except IndexError:
            I.throw('IndexError', 'pop from list')

    def m_remove(self, I, x):
        I.write(self, 'remove')
        for i, y in enumerate(self.items):
            r = I.compare('==', y, x)
            if r is True:
                del self.items[i]
                return None
            if r is not False:
                I.soften('remove')
                return None
        I.throw('ValueError', 'list.remove(x): x not in list')

    def m_sort(self, I, key=None, reverse=False):
        I.write(self, 'sort')
        r = I.sorted(self.items, key, reverse)
        self.items = r if r is not None else [Top('sort') for _ in self.items]

    def m_reverse(self, I):
        I.write(self, 'reverse')
        self.items.reverse()

    def m_clear(self, I):
        I.write(self, 'clear')
        del self.items[:]

    def m_copy(self, I):
        return ListVal(I, self.items)

    def m_index(self, I, x):
        for i, y in enumerate(self.items):
            r = I.compare('==', y, x)
            if r is True:
                return i
            if r is not False:
                return Top('index')
        I.throw('ValueError', 'not in list')

    def m_count(self, I, x):
        n = 0
        for y in self.items:
            r = I.compare('==', y, x)
            if r is True:
                n += 1
            elif r is not False:
                return Top('count')
        return n


class DictVal(Mutable):
    types = ('builtins.dict',)
    python = dict
    weak = False

    def __init__(self, I, pairs=(), ordered=False):
        self.d = {}
        self.unknown = False     # some keys may be unknown
        self.init(I)
        for k, v in pairs:
            self.d[hk(k)] = (k, v)

    def __repr__(self):
        return 'Dict%r' % (list(self.d.values()),)

    def keylist(self):
        return [k for k, _ in self.d.values()]

    def iter(self, I):
        if self.unknown:
            return Top('iteration over dict')
        return self.keylist()

    def len(self, I):
        return Top('len dict') if self.unknown else len(self.d)

    def truth(self, I):
        return True if self.d else (None if self.unknown else False)

    def find(self, I, key):
        """-> (True, value) | (False, None) | (None, None) unknown"""
        k = hk(key)
        if k is not None:
            if k in self.d:
                return True, self.d[k][1]
            if self.unknown or isinstance(key, (Top, AStr)):
                return None, None
            return False, None
        return None, None

    def getitem(self, I, key):
        f, v = self.find(I, key)
        if f:
            return v
        if f is None:
            I.may_raise('KeyError')
            return Top('dict item')
        I.throw('KeyError', key)

    def setitem(self, I, key, value):
        I.write(self, 'item assignment')
        k = hk(key)
        if k is None or isinstance(key, (Top, AStr)):
            self.unknown = True
            return
        if (I.soft or I.choices) and k not in self.d:
            I.dirty.append((self, k))
        self.d[k] = (key, value)

    def delitem(self, I, key):
        I.write(self, 'item deletion')
        f, v = self.find(I, key)
        if f:
            del self.d[hk(key)]
        elif f is None:
            I.soften('del dict item')
        else:
            I.throw('KeyError', key)

    def contains(self, I, x):
        f, v = self.find(I, x)
        return Top('dict containment') if f is None else f

    def compare(self, I, op, other):
        if op in ('is', 'is not'):
            return (self is other) == (op == 'is')
        if op in ('==', '!=') and isinstance(other, DictVal):
            if not self.unknown and not other.unknown:
                if set(self.d) != set(other.d):
                    return op == '!='
                for k in self.d:
                    r = I.compare('==', self.d[k][1], other.d[k][1])
                    if r is not True:
                        if r is False:
                            return op == '!='
                        return Top()
                return op == '=='
        return NotImplemented

    def binop(self, I, op, other):
        if op == '|' and isinstance(other, DictVal):
            d = DictVal(I, list(self.d.values()) + list(other.d.values()))
            d.unknown = self.unknown or other.unknown
            return d
        return NotImplemented

    def iadd(self, I, op, other):
        if op == '|':
            self.m_update(I, other)
            return self
        return NotImplemented

    def m_get(self, I, key, default=None):
        f, v = self.find(I, key)
        if f:
            return v
        if f is None:
            return Top('dict get')
        return default

    def m_pop(self, I, key, *default):
        f, v = self.find(I, key)
        if f:
            I.write(self, 'pop')
            del self.d[hk(key)]
            return v
        if f is None:
            I.write(self, 'pop')
            I.soften('pop')
            return Top('dict pop')
        if default:
            return default[0]
        I.throw('KeyError', key)

    def m_setdefault(self, I, key, default=None):
        f, v = self.find(I, key)
        if f:
            return v
        self.setitem(I, key, default)
        return default if f is False else Top('setdefault')

    def m_keys(self, I):
        if self.unknown:
            return Top('keys')
        return KeysView(self)

    def m_values(self, I):
        if self.unknown:
            return Top('values')
        return ListVal(I, [v for _, v in self.d.values()])

    def m_items(self, I):
        if self.unknown:
            return Top('items')
        return ListVal(I, [(k, v) for k, v in self.d.values()])

    def m_clear(self, I):
        I.write(self, 'clear')
        self.d.clear()
        self.unknown = False

    def m_copy(self, I):
        d = DictVal(I, list(self.d.values()))
        d.unknown = self.unknown
        return d

    def m_update(self, I, *args, **kw):
        I.write(self, 'update')
        for a in args:
            if isinstance(a, DictVal):
                self.d.update(a.d)
                self.unknown = self.unknown or a.unknown
            else:
                it = I.iterate(a)
                if isinstance(it, list):
                    for p in it:
                        p = I.iterate(p)
                        if isinstance(p, list) and len(p) == 2:
                            self.setitem(I, p[0], p[1])
                        else:
                            self.unknown = True
                else:
                    self.unknown = True
        for k, v in kw.items():
            self.setitem(I, k, v)

    m___getitem__ = getitem
    m___contains__ = contains
    m___setitem__ = setitem


class KeysView(AbsVal):
    def __init__(self, d):
        self.dv = d

    def iter(self, I):
        return self.dv.iter(I)

    def len(self, I):
        return self.dv.len(I)

    def contains(self, I, x):
        return self.dv.contains(I, x)

    def truth(self, I):
        return self.dv.truth(I)

    def _set(self, I):
        return SetVal(I, self.dv.keylist())

    def binop(self, I, op, other):
        if self.dv.unknown:
            return Top()
        return I.binop(op, self._set(I), other)

    def rbinop(self, I, op, other):
        if self.dv.unknown:
            return Top()
        return I.binop(op, other, self._set(I))


class SetVal(Mutable):
    types = ('builtins.set',)
    python = set

    def __init__(self, I, items=(), frozen=False):
        self.d = {}
        self.unknown = False
        self.init(I)
        for x in items:
            k = hk(x)
            if k is None:
                self.unknown = True
            else:
                self.d[k] = x

    def __repr__(self):
        return 'Set%r' % (list(self.d.values()),)

    def iter(self, I):
        return Top('set') if self.unknown else list(self.d.values())

    def len(self, I):
        return Top('set') if self.unknown else len(self.d)

    def truth(self, I):
        return True if self.d else (None if self.unknown else False)

    def contains(self, I, x):
        k = hk(x)
        if k is not None and k in self.d:
            return True
        if self.unknown or k is None or isinstance(x, (Top, AStr)):
            return Top('set containment')
        return False

    def _other(self, I, o):
        if isinstance(o, SetVal):
            return o
        if isinstance(o, KeysView):
            return o._set(I)
        return None

    def binop(self, I, op, other):
        o = self._other(I, other)
        if o is None:
            return NotImplemented
        if self.unknown or o.unknown:
            return Top()
        if op == '|':
            ks = list(self.d) + list(o.d)
        elif op == '&':
            ks = [k for k in self.d if k in o.d]
        elif op == '-':
            ks = [k for k in self.d if k not in o.d]
        elif op == '^':
            ks = [k for k in self.d if k not in o.d] + \
                [k for k in o.d if k not in self.d]
        else:
            return NotImplemented
        return SetVal(I, [self.d.get(k, o.d.get(k)) for k in ks])

    def iadd(self, I, op, other):
        r = self.binop(I, op, other)
        if isinstance(r, SetVal):
            I.write(self, 'in-place set operation')
            self.d = r.d
            return self
        return r

    def compare(self, I, op, other):
        if op in ('is', 'is not'):
            return (self is other) == (op == 'is')
        o = self._other(I, other)
        if o is None or self.unknown or o.unknown:
            return NotImplemented
        a, b = set(self.d), set(o.d)
        return CMP[op](a, b)

    def m_add(self, I, x):
        I.write(self, 'add')
        k = hk(x)
        if k is None:
            self.unknown = True
        else:
            self.d[k] = x

    def m_discard(self, I, x):
        I.write(self, 'discard')
        self.d.pop(hk(x), None)

    def m_remove(self, I, x):
        I.write(self, 'remove')
        if hk(x) in self.d:
            del self.d[hk(x)]
        elif self.unknown:
            I.soften('set remove')
        else:
            I.throw('KeyError', x)

    def m_update(self, I, *xs):
        I.write(self, 'update')
        for s in xs:
            it = I.iterate(s)
            if isinstance(it, list):
                for x in it:
                    self.m_add(I, x)
            else:
                self.unknown = True

    def m_clear(self, I):
        I.write(self, 'clear')
        self.d.clear()

    def m_copy(self, I):
        return SetVal(I, self.d.values())

    def m_union(self, I, *xs):
        r = SetVal(I, self.d.values())
        r.unknown = self.unknown
        r.m_update(I, *xs)
        return r

    def m_difference(self, I, *xs):
        r = SetVal(I, self.d.values())
        r.unknown = self.unknown
        for s in xs:
            it = I.iterate(s)
            if not isinstance(it, list):
                return Top()
            for x in it:
                r.d.pop(hk(x), None)
        return r

    def m_intersection(self, I, *xs):
        r = self
        for s in xs:
            it = I.iterate(s)
            if not isinstance(it, list):
                return Top()
            r = I.binop('&', r, SetVal(I, it))
        return r

    def m_isdisjoint(self, I, other):
        r = self.m_intersection(I, other)
        return Top() if isinstance(r, Top) else not r.d


class Rep(AbsVal):
    """Elements appended once per iteration of a symbolic loop."""

    def __init__(self, items, dom=None):
        self.items = items
        self.dom = dom

    def __repr__(self):
        return 'Rep%r' % (self.items,)


class SymSeq(AbsVal):
    """A sequence of symbolic length; ``generic`` gives its typical element."""

    def __init__(self, dom, gen):
        self.dom = dom
        self.gen = gen

    def generic(self, I):
        return self.gen(I)

    def iter(self, I):
        return self


class IterVal(AbsVal):
    """A one-shot iterator over known items."""

    def __init__(self, items):
        self.items = items
        self.pos = 0

    def iter(self, I):
        rest = self.items[self.pos:]
        self.pos = len(self.items)
        return rest

    def next(self, I):
        if self.pos < len(self.items):
            self.pos += 1
            return self.items[self.pos - 1]
        I.throw('StopIteration', None)

    def truth(self, I):
        return True


class FuncVal(AbsVal):
    types = ('types.FunctionType',)

    def __init__(self, node, env, module, name, defaults, kwdefaults,
                 qualname=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qualname = qualname or name
        self.attrs = {}
        self.cls = None

    def __repr__(self):
        return 'Func(%s)' % self.qualname

    def getattr(self, I, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == '__name__':
            return self.name
        if name == '__doc__':
            return None
        if name == '__get__':
            return BoundModel(self, '__get__', lambda I, inst, owner=None:
                              self if inst is None else BoundMethod(inst, self))
        return Top('function attribute')

    def setattr(self, I, name, v):
        self.attrs[name] = v

    def call(self, I, args, kw):
        return I.call_func(self, args, kw)

    def truth(self, I):
        return True

    def compare(self, I, op, other):
        if op in ('is', 'is not', '==', '!=') and not isinstance(other, Top):
            return (self is other) == (op in ('is', '=='))
        return NotImplemented


class BoundMethod(AbsVal):
    types = ('types.MethodType',)

    def __init__(self, inst, func):
        self.inst, self.func = inst, func

    def __repr__(self):
        return 'Bound(%r,%r)' % (self.inst, self.func)

    def call(self, I, args, kw):
        return I.call(self.func, [self.inst] + list(args), kw)

    def getattr(self, I, name):
        if name == '__self__':
            return self.inst
        if name == '__func__':
            return self.func
        return I.getattr(self.func, name)

    def truth(self, I):
        return True

    def compare(self, I, op, other):
        if op in ('is', 'is not') and not isinstance(other, Top):
            return (self is other) == (op == 'is')
        if op in ('==', '!=') and isinstance(other, BoundMethod):
            same = self.inst is other.inst and self.func is other.func
            return same == (op == '==')
        return NotImplemented


class PropVal(AbsVal):
    def __init__(self, fget, fset=None, abstract=False):
        self.fget, self.fset, self.abstract = fget, fset, abstract

    def m_setter(self, I, f):
        return PropVal(self.fget, f, self.abstract)

    def m_getter(self, I, f):
        return PropVal(f, self.fset, self.abstract)

    def m_deleter(self, I, f):
        return self

    def a_fget(self, I):
        return self.fget


class StaticVal(AbsVal):
    def __init__(self, f, cls=False):
        self.f, self.is_cls = f, cls


class ClassVal(AbsVal):
    types = ('builtins.type',)

    def __init__(self, name, bases, d, module, node=None):
        self.name, self.bases, self.d = name, bases, d
        self.module, self.node = module, node
        self._mro = None

    def __repr__(self):
        return 'Class(%s)' % self.name

    @property
    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro) if isinstance(b, ClassVal) else [b]
                    for b in self.bases]
            seqs.append([b for b in self.bases])
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisError('mro of %s' % self.name)
                out.append(h)
                for s in seqs:
                    if s[0] == h:
                        del s[0]
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, ClassVal):
                if name in c.d:
                    return c.d[name], c
        return None, None

    def ext_bases(self):
        return [c for c in self.mro if not isinstance(c, ClassVal)]

    def has_unknown_base(self):
        return any(isinstance(c, Top) for c in self.mro)

    def subclass_of(self, other):
        return any(c is other or (isinstance(c, Ext) and c == other)
                   for c in self.mro)

    def getattr(self, I, name):
        if name == '__name__':
            return self.name
        if name == '__doc__':
            return ast.get_docstring(self.node) if self.node else None
        if name == '__module__':
            return self.module.name if self.module else None
        if name == '__mro__':
            return tuple(self.mro)
        if name == '__bases__':
            return tuple(self.bases)
        v, c = self.lookup(name)
        if c is not None:
            if isinstance(v, StaticVal):
                return BoundMethod(self, v.f) if v.is_cls else v.f
            if isinstance(v, InstVal):
                g, gc = v.cls.lookup('__get__')
                if gc is not None:
                    return I.call(BoundMethod(v, g), [None, self], {})
            return v
        for b in self.ext_bases():
            return I.ext_class_attr(b, self, name)
        if name in ('__new__', '__init__'):
            return Top(name)
        I.throw('AttributeError', name)

    def setattr(self, I, name, v):
        I.write(self, 'class attribute %s' % name)
        self.d[name] = v

    owner = 'module'

    def call(self, I, args, kw):
        return I.instantiate(self, args, kw)

    def truth(self, I):
        return True

    def compare(self, I, op, other):
        if op in ('is', 'is not', '==', '!=') and not isinstance(other, Top):
            return (self is other) == (op in ('is', '=='))
        return NotImplemented


class AttrDict(DictVal):
    """vars() of an object: a view of its attributes"""

    def __init__(self, I, inst):
        self.inst, self.unknown = inst, inst.cls.has_unknown_base()
        self.init(I)
        self.owner = inst.owner

    @property
    def d(self):
        return {hk(k): (k, v) for k, v in self.inst.d.items()}

    def setitem(self, I, key, value):
        I.write(self.inst, 'attribute %s' % (key,))
        if not isinstance(key, str):
            I.soften('attribute name')
            return
        self.inst.d[key] = I.carried(value)

    def delitem(self, I, key):
        f, v = self.find(I, key)
        if f is None:
            I.soften('del attribute')
        elif not f:
            I.throw('KeyError', key)
        else:
            I.write(self.inst, 'attribute %s' % key)
            del self.inst.d[key]

    def m_pop(self, I, key, *default):
        f, v = self.find(I, key)
        if f:
            self.delitem(I, key)
            return v
        if f is False and default:
            return default[0]
        if f is None:
            I.soften('pop')
            return Top('pop')
        I.throw('KeyError', key)

    def m_clear(self, I):
        I.write(self.inst, 'clear')
        self.inst.d.clear()

    def m_update(self, I, *args, **kw):
        t = DictVal(I)
        t.m_update(I, *args, **kw)
        if t.unknown:
            I.soften('update')
        for k, v in t.d.values():
            self.setitem(I, k, v)

    def m_popitem(self, I, *a):
        I.soften('popitem')
        return Top('popitem')


class InstVal(Mutable):
    def __init__(self, I, cls):
        self.cls = cls
        self.d = {}
        self.init(I)

    def __repr__(self):
        return 'Inst(%s)' % self.cls.name

    def _method(self, name):
        v, c = self.cls.lookup(name)
        return v if c is not None else None

    def getattr(self, I, name):
        if name == '__class__':
            return self.cls
        if name == '__dict__':
            return AttrDict(I, self)
        v, c = self.cls.lookup(name)
        if c is not None:
            if isinstance(v, PropVal):
                if v.abstract and v.fget is None:
                    return Top('abstract')
                return I.call(v.fget, [self], {})
            if isinstance(v, InstVal):
                s, sc = v.cls.lookup('__set__')
                g, gc = v.cls.lookup('__get__')
                if gc is not None and (sc is not None or name not in self.d):
                    return I.call(BoundMethod(v, g), [self, self.cls], {})
        if name in self.d:
            return self.d[name]
        if c is not None:
            if isinstance(v, FuncVal):
                return BoundMethod(self, v)
            if isinstance(v, StaticVal):
                return BoundMethod(self.cls, v.f) if v.is_cls else v.f
            if isinstance(v, AbsVal):
                d = getattr(v, 'bind', None)
                if d is not None:
                    return d(I, self)
            return v
        g = self._method('__getattr__')
        if g is not None and name != '__getattr__':
            return I.call(BoundMethod(self, g), [name], {})
        for b in self.cls.ext_bases():
            r = I.ext_inst_attr(b, self, name)
            if r is not None:
                return r
        if self.cls.has_unknown_base():
            return Top('attribute of unknown base')
        e = ExcVal('builtins.AttributeError', [name])
        e.own = True        # an object of the package, not of a model
        raise PyExc(e, I.where())

    def setattr(self, I, name, value):
        v, c = self.cls.lookup(name)
        if c is not None:
            if isinstance(v, PropVal):
                if v.fset is None:
                    I.throw('AttributeError', "can't set attribute")
                return I.call(v.fset, [self, value], {})
            if isinstance(v, InstVal):
                s, sc = v.cls.lookup('__set__')
                if sc is not None:
                    return I.call(BoundMethod(v, s), [self, value], {})
        I.write(self, 'attribute %s' % name)
        self.d[name] = I.carried(value)

    def delattr(self, I, name):
        I.write(self, 'attribute %s' % name)
        if name in self.d:
            del self.d[name]
        else:
            I.throw('AttributeError', name)

    def call(self, I, args, kw):
        m = self._method('__call__')
        if m is not None:
            return I.call(BoundMethod(self, m), args, kw)
        for b in self.cls.ext_bases():
            return I.ext_inst_call(b, self, args, kw)
        I.throw('TypeError', 'object is not callable')

    def _dunder(self, I, name, *args):
        m = self._method(name)
        if m is None:
            return NotImplemented
        return I.call(BoundMethod(self, m), list(args), {})

    def getitem(self, I, key):
        r = self._dunder(I, '__getitem__', key)
        return Top('item of instance') if r is NotImplemented else r

    def setitem(self, I, key, value):
        r = self._dunder(I, '__setitem__', key, value)
        if r is NotImplemented:
            I.soften('item write on instance')

    def contains(self, I, x):
        r = self._dunder(I, '__contains__', x)
        return Top('contains') if r is NotImplemented else r

    def len(self, I):
        r = self._dunder(I, '__len__')
        return Top('len') if r is NotImplemented else r

    def iter(self, I):
        r = self._dunder(I, '__iter__')
        return Top('iter') if r is NotImplemented else I.iterate(r)

    def truth(self, I):
        r = self._dunder(I, '__bool__')
        if r is NotImplemented:
            r = self._dunder(I, '__nonzero__')
        if r is NotImplemented:
            r = self._dunder(I, '__len__')
        if r is NotImplemented:
            return True
        return r if isinstance(r, bool) else None

    def binop(self, I, op, other):
        r = self._dunder(I, BINNAME.get(op, '?'), other)
        if r is NotImplemented:
            for b in self.cls.ext_bases():
                return I.ext_inst_binop(b, self, op, other, False)
        return r

    def rbinop(self, I, op, other):
        r = self._dunder(I, BINNAME.get(op, '?').replace('__', '__r', 1),
                         other)
        if r is NotImplemented:
            for b in self.cls.ext_bases():
                return I.ext_inst_binop(b, self, op, other, True)
        return r

    def unop(self, I, op):
        r = self._dunder(I, {'-': '__neg__', '+': '__pos__',
                             '~': '__invert__'}.get(op, '?'))
        if r is NotImplemented:
            for b in self.cls.ext_bases():
                return I.ext_inst_unop(b, self, op)
            return Top('unop')
        return r

    def compare(self, I, op, other):
        if op in ('is', 'is not') and not isinstance(other, Top):
            return (self is other) == (op == 'is')
        n = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__',
             '>': '__gt__', '>=': '__ge__'}.get(op)
        if n:
            r = self._dunder(I, n, other)
            if r is not NotImplemented:
                return r
            if op in ('==', '!=') and not isinstance(other, Top) and \
                    not self.cls.has_unknown_base() and \
                    not any(isinstance(b, Ext) for b in self.cls.ext_bases()):
                return (self is other) == (op == '==')
        return NotImplemented

    def isinstance_of(self, I, path):
        for b in self.cls.ext_bases():
            if isinstance(b, Ext):
                if b.path == path:
                    return True
                r = I.ext_subclass(b.path, path)
                if r:
                    return True
        if self.cls.has_unknown_base():
            return None
        return False


class ModuleVal(AbsVal):
    def __init__(self, name, path, tree, package):
        self.name, self.path, self.tree, self.package = \
            name, path, tree, package
        self.env = {}
        self.state = 'new'

    def __repr__(self):
        return 'Module(%s)' % self.name

    def getattr(self, I, name):
        I.load(self)
        if name in self.env:
            return self.env[name]
        sub = self.name + '.' + name
        if sub in I.modules:
            return I.load(I.modules[sub])
        if name == '__name__':
            return self.name
        if name == '__file__':
            return self.path
        I.throw('AttributeError', name)

    def setattr(self, I, name, v):
        I.write(self, 'module attribute %s' % name)
        self.env[name] = v

    owner = 'module'

    def truth(self, I):
        return True


class ExcVal(AbsVal):
    """An instance of a builtin (or modelled external) exception."""

    def __init__(self, path, args, node=None):
        self.path, self.args, self.node = path, args, node
        self.cause = None
        self.own = False

    def __repr__(self):
        return 'Exc(%s,%r)' % (self.path, self.args)

    def a_args(self, I):
        return tuple(self.args)

    def isinstance_of(self, I, path):
        return exc_sub(self.path, path)

    def truth(self, I):
        return True


class PyExc(Exception):
    """Host-level carrier of an exception in the analysed program."""

    def __init__(self, val, site=None):
        Exception.__init__(self)
        self.val = val          # ExcVal or InstVal
        self.site = site

    def name(self):
        if isinstance(self.val, ExcVal):
            return self.val.path.split('.')[-1]
        if isinstance(self.val, InstVal):
            return self.val.cls.name
        return '?'

    def model_gap(self):
        """an attribute that a model of a library object lacks"""
        return self.name() == 'AttributeError' and \
            not getattr(self.val, 'own', False)


class SuperVal(AbsVal):
    def __init__(self, cls, inst):
        self.cls, self.inst = cls, inst

    def getattr(self, I, name):
        inst = self.inst
        c0 = inst.cls if isinstance(inst, InstVal) else inst
        mro = c0.mro
        try:
            i = mro.index(self.cls)
        except ValueError:
            return Top('super')
        for c in mro[i + 1:]:
            if isinstance(c, ClassVal):
                if name in c.d:
                    v = c.d[name]
                    if isinstance(v, FuncVal):
                        return BoundMethod(inst, v)
                    if isinstance(v, PropVal):
                        return I.call(v.fget, [inst], {})
                    if isinstance(v, StaticVal):
                        return BoundMethod(c0, v.f) if v.is_cls else v.f
                    if isinstance(v, InstVal):
                        g, gc = v.cls.lookup('__get__')
                        if gc is not None:
                            return I.call(BoundMethod(v, g), [inst, c0], {})
                    return v
            else:
                r = I.ext_super_attr(c, inst, name)
                if r is not None:
                    return r
        if name == '__init__':
            return BoundModel(self, '__init__', lambda I, *a, **k: None)
        I.throw('AttributeError', name)


# --------------------------------------------------------------------------

BINNAME = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__',
           '//': '__floordiv__', '%': '__mod__', '**': '__pow__',
           '&': '__and__', '|': '__or__', '^': '__xor__', '<<': '__lshift__',
           '>>': '__rshift__', '@': '__matmul__'}
BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
       '**': operator.pow, '&': operator.and_, '|': operator.or_,
       '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift}
CMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
       '<=': operator.le, '>': operator.gt, '>=': operator.ge}
SWAP = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}
AST_BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
           ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
           ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
AST_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
           ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
           ast.In: 'in', ast.NotIn: 'not in'}

NATIVE = (int, float, str, bytes, bool, type(None), type(Ellipsis), complex)


def is_native(v):
    if isinstance(v, AStr):
        return False
    if isinstance(v, NATIVE):
        return True
    if isinstance(v, tuple):
        return all(is_native(x) for x in v)
    return False


def has_top(v):
    if isinstance(v, Top):
        return True
    if isinstance(v, (tuple, list)):
        return any(has_top(x) for x in v)
    if isinstance(v, ListVal):
        return any(has_top(x) for x in v.items)
    return False


def hk(v):
    """Hashable key of a value (None when it has none)."""
    if isinstance(v, (ListVal, DictVal, SetVal)):
        return None
    if isinstance(v, tuple):
        ks = tuple(hk(x) for x in v)
        return None if any(k is None for k in ks) else ('t', ks)
    if isinstance(v, bool):
        return ('n', int(v))
    if isinstance(v, (int, float)):
        return ('n', v)
    if v is None:
        return ('none',)
    try:
        hash(v)
    except TypeError:
        return None
    return ('v', v)


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


import builtins as _b


def exc_class(path):
    if path.startswith('builtins.'):
        c = getattr(_b, path[9:], None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return c
    return EXT_EXC.get(path)


# external exception types the analysed package may meet, with their
# builtin ancestors
class _OOB(ValueError):
    pass


class _NonEx(Exception):
    pass


class _Amb(Exception):
    pass


EXT_EXC = {
    'pandas.errors.OutOfBoundsDatetime': _OOB,
    'pandas._libs.tslibs.np_datetime.OutOfBoundsDatetime': _OOB,
    'pytz.exceptions.UnknownTimeZoneError': KeyError,
    'pytz.UnknownTimeZoneError': KeyError,
    'pytz.NonExistentTimeError': _NonEx,
    'pytz.AmbiguousTimeError': _Amb,
}


def exc_sub(path, target):
    a, b = exc_class(path), exc_class(target)
    if a is None or b is None:
        return True if path == target else None
    return issubclass(a, b)


class Env(object):
    __slots__ = ('vars', 'parent', 'module', 'globals_', 'nonlocals', 'func',
                 'iscls', 'locals_')

    def __init__(self, parent, module, func=None, iscls=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_ = ()
        self.nonlocals = ()
        self.func = func
        self.iscls = iscls
        self.locals_ = None


class Interp(object):
    MAX_DEPTH = 90

    def __init__(self, modules, models, consts=None, fuel=4000000):
        self.modules = modules
        self.models = models
        self.consts = consts or {}
        self.phase = 'module'
        self.unmodelled = set()
        self.soft = []            # reasons the current path is only 'may'
        self.dirty = []           # table entries made on such a path
        self.choices = []
        self.pos = 0
        self.fuel = fuel
        self.depth = 0
        self.stack = []
        self.mod = None
        self.lineno = 0
        self.writes = []          # (phase, owner, obj, what, where)
        self.symloop = []         # stack of active symbolic loops
        self.called = set()       # functions entered
        self.raise_sites = {}
        self.hooks = {}
        self.ctx = {}
        self.reachable_calls = 0

    # ---- path enumeration

    def soften(self, why):
        self.soft.append(why)

    def choose(self, n, why):
        self.soft.append(why)
        return self._pick(n, why)

    def split(self, n, why):
        return self._pick(n, why)

    def _pick(self, n, why):
        if self.pos < len(self.choices):
            c = self.choices[self.pos][0]
        else:
            self.choices.append([0, n, why])
            c = 0
        self.pos += 1
        return c

    def may_raise(self, name):
        self.soften('may raise %s' % name)

    def begin_path(self):
        self.pos = 0
        self.soft = []
        self.depth = 0
        self.stack = []
        self.symloop = []

    def next_path(self):
        self.choices = self.choices[:self.pos]
        while self.choices:
            self.choices[-1][0] += 1
            if self.choices[-1][0] < self.choices[-1][1]:
                return True
            self.choices.pop()
        return False

    # ---- bookkeeping

    def where(self):
        f = self.stack[-1].qualname if self.stack else '<module>'
        p = self.mod.path if self.mod is not None else '?'
        return (p, f, self.lineno)

    def write(self, obj, what):
        owner = getattr(obj, 'owner', None)
        if owner != self.phase:
            self.writes.append((self.phase, owner, obj, what, self.where()))
            h = self.hooks.get('write')
            if h:
                h(obj, what)

    def havoc_args(self, args, kw):
        for a in list(args) + list(kw.values()):
            if isinstance(a, (ListVal, DictVal, SetVal)):
                self.soften('mutable value passed to unknown code')

    def rep(self, x, loops=0):
        """x as added to something made inside that many symbolic loops"""
        if len(self.symloop) > loops:
            return Rep([x], self.symloop[-1])
        return x

    def carried(self, v):
        return v

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided('analysis budget exhausted')

    # ---- exceptions

    def no_attribute(self, name):
        """a value known exactly has no such attribute"""
        e = ExcVal('builtins.AttributeError', [name])
        e.own = True
        raise PyExc(e, self.where())

    def throw(self, name, *args):
        path = name if '.' in name else 'builtins.' + name
        raise PyExc(ExcVal(path, list(args)), self.where())

    # ---- modules

    def load(self, m):
        if m.state == 'new':
            m.state = 'loading'
            saved = (self.phase, self.mod, self.lineno, self.stack,
                     self.symloop)
            self.phase, self.mod, self.stack = 'module', m, []
            self.symloop = []
            env = Env(None, m)
            env.vars = m.env
            m.env['__name__'] = m.name
            m.env['__file__'] = m.path
            try:
                self.exec_block(m.tree.body, env)
            finally:
                (self.phase, self.mod, self.lineno, self.stack,
                 self.symloop) = saved
            m.state = 'done'
        return m

    def import_module(self, name):
        if name in self.modules:
            parts = name.split('.')
            for i in range(1, len(parts)):
                pk = '.'.join(parts[:i])
                if pk in self.modules:
                    self.load(self.modules[pk])
            return self.load(self.modules[name])
        if name.split('.')[0] in self.ctx.get('package_roots', ()):
            self.throw('ImportError', name)
        if name in self.ctx.get('missing_modules', ()):
            self.throw('ImportError', name)
        return self.ext(name)

    def ext(self, path):
        if path in self.consts:
            v = self.consts[path]
            return v(self) if callable(v) and not isinstance(v, AbsVal) else v
        al = self.ctx.get('ext_aliases', {}).get(path)
        if al is not None:
            return self.ext(al)
        return Ext(path)

    # ---- hooks for external base classes (overridden by model layers)

    def ext_class_attr(self, base, cls, name):
        if isinstance(base, Ext):
            return Ext(base.path + '.' + name)
        return Top('attribute of external base')

    def ext_inst_attr(self, base, inst, name):
        if isinstance(base, Ext):
            h = self.models.get(base.path + '#attr')
            if h is not None:
                return h(self, inst, name)
            if exc_class(base.path) is not None:
                if name == 'args':
                    return tuple(inst.d.get('#args', ()))
                return None
            return Top('attribute of %s' % base.path)
        return Top('attribute of external base')

    def ext_super_attr(self, base, inst, name):
        if isinstance(base, Ext):
            h = self.models.get(base.path + '#super')
            if h is not None:
                return h(self, inst, name)
            if exc_class(base.path) is not None:
                if name == '__init__':
                    def init(I, *a, **k):
                        inst.d['#args'] = a
                    return BoundModel(inst, '__init__', init)
                if name == '__str__':
                    return BoundModel(inst, '__str__',
                                      lambda I: AStr('<exception text>'))
            if name == '__init__' and base.path == 'builtins.object':
                return BoundModel(inst, '__init__', lambda I, *a, **k: None)
        return Top('super attribute')

    def ext_inst_call(self, base, inst, args, kw):
        if isinstance(base, Ext):
            h = self.models.get(base.path + '#call')
            if h is not None:
                return h(self, inst, args, kw)
        return Top('call of instance of external base')

    def ext_inst_binop(self, base, inst, op, other, refl):
        if isinstance(base, Ext):
            h = self.models.get(base.path + '#binop')
            if h is not None:
                return h(self, inst, op, other, refl)
        return NotImplemented

    def ext_inst_unop(self, base, inst, op):
        if isinstance(base, Ext):
            h = self.models.get(base.path + '#unop')
            if h is not None:
                return h(self, inst, op)
        return Top('unop')

    def ext_subclass(self, path, target):
        if exc_class(path) is not None and exc_class(target) is not None:
            return exc_sub(path, target)
        return self.ctx.get('ext_subclass', {}).get((path, target))

    # ---- calls

    def instantiate(self, cls, args, kw):
        h = None
        for b in cls.ext_bases():
            if isinstance(b, Ext):
                h = h or self.models.get(b.path + '#new')
        inst = InstVal(self, cls)
        new, nc = cls.lookup('__new__')
        if nc is not None:
            return Top('__new__')
        if any(isinstance(v, PropVal) and v.abstract
               for v in self.class_view(cls).values()):
            self.throw('TypeError', "Can't instantiate abstract class")
        init, ic = cls.lookup('__init__')
        if ic is not None:
            self.call(BoundMethod(inst, init), args, kw)
        elif h is not None:
            r = h(self, inst, args, kw)
            if r is not None:
                return r
        else:
            inst.d['#args'] = tuple(args)
        return inst

    def class_view(self, cls):
        out = {}
        for c in reversed(cls.mro):
            if isinstance(c, ClassVal):
                out.update(c.d)
        return out

    def call(self, f, args, kw=None):
        kw = kw or {}
        self.tick()
        if isinstance(f, AbsVal):
            return f.call(self, args, kw)
        if f is NotImplemented:
            return Top('call')
        self.throw('TypeError', 'object is not callable')

    def call_func(self, f, args, kw):
        if self.depth > self.MAX_DEPTH:
            raise Undecided('recursion limit')
        h = self.ctx.get('intercept', {}).get(f.qualname)
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NotImplemented:
                return r
        env = Env(f.env, f.module, f)
        self.bind(f, env, args, kw)
        self.called.add((f.module.path, f.qualname))
        saved = (self.mod, self.lineno)
        self.stack.append(f)
        self.mod = f.module
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if is_generator(f.node):
                out = []
                env.vars['#yield'] = out
                env.vars['#loops'] = len(self.symloop)
                try:
                    self.exec_block(f.node.body, env)
                except ReturnSig:
                    pass
                return IterVal(out)
            try:
                self.exec_block(f.node.body, env)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.stack.pop()
            self.mod, self.lineno = saved

    def bind(self, f, env, args, kw):
        a = f.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + \
            [x.arg for x in a.args]
        args = list(args)
        kw = dict(kw)
        n = len(pos)
        for name, v in zip(pos, args):
            env.vars[name] = v
        extra = args[n:]
        if a.vararg:
            env.vars[a.vararg.arg] = tuple(extra)
        elif extra:
            self.throw('TypeError', '%s() takes %d positional arguments but '
                       '%d were given' % (f.name, n, len(args)))
        for name in pos[len(args):]:
            if name in kw:
                env.vars[name] = kw.pop(name)
        for x in a.kwonlyargs:
            if x.arg in kw:
                env.vars[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env.vars[x.arg] = f.kwdefaults[x.arg]
            else:
                self.throw('TypeError', '%s() missing keyword-only argument %s'
                           % (f.name, x.arg))
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in env.vars:
                j = i - (n - nd)
                if j >= 0:
                    env.vars[name] = f.defaults[j]
                else:
                    self.throw('TypeError', '%s() missing argument %s'
                               % (f.name, name))
        if a.kwarg:
            env.vars[a.kwarg.arg] = DictVal(self, list(kw.items()))
        elif kw:
            self.throw('TypeError', '%s() got an unexpected keyword argument '
                       '%s' % (f.name, sorted(kw)[0]))

    # ---- generic operations

    def getattr(self, v, name):
        if isinstance(v, AbsVal):
            return v.getattr(self, name)
        return self.native_attr(v, name)

    def native_attr(self, v, name):
        if isinstance(v, str):
            return StrMethod(v, name)
        if isinstance(v, tuple):
            if name in ('index', 'count'):
                lv = ListVal(self, v)
                return lv.getattr(self, name)
            if hasattr(v, '_fields') and name in v._fields:
                return getattr(v, name)
            if type(v) is tuple and not hasattr(v, name):
                self.no_attribute(name)
            return Top('tuple attribute')
        if isinstance(v, (int, float)):
            if name in ('real', 'numerator'):
                return v
            if name in ('is_integer', 'bit_length'):
                return BoundModel(Top(), name,
                                  lambda I: getattr(v, name)())
            return Top('number attribute %s' % name)
        if v is None:
            self.no_attribute(name)
        if isinstance(v, slice):
            return getattr(v, name, Top())
        return Top('attribute')

    def truth(self, v, why='branch'):
        """True/False; forks on unknown."""
        if isinstance(v, AStr):
            return True if len(v) else bool(self.choose(2, why))
        if not isinstance(v, AbsVal):
            return bool(v)
        t = v.truth(self)
        if t is None:
            return self.choose(2, getattr(v, 'why', why) or why) == 0
        return t

    def binop(self, op, a, b):
        if is_native(a) and is_native(b):
            if op not in BIN:
                self.throw('TypeError', 'unsupported operand')
            try:
                if op == '**' and isinstance(b, int) and abs(b) > 4000:
                    return Top('pow')
                if op == '*' and isinstance(a, (str, tuple)) and \
                        isinstance(b, int) and len(a) * b > 10 ** 6:
                    return Top('repetition')
                return BIN[op](a, b)
            except Exception as e:
                self.throw(type(e).__name__, str(e))
        if isinstance(a, str) and op == '%':
            return self.percent(a, b)
        if isinstance(a, str) and isinstance(b, str) and op == '+':
            return AStr(str(a) + str(b))
        if isinstance(a, AStr) and op == '*' and isinstance(b, int):
            return AStr(str(a) * b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == '*':
            return a * b
        if isinstance(a, Top) or isinstance(b, Top):
            return Top((a if isinstance(a, Top) else b).why)
        if isinstance(a, AbsVal):
            r = a.binop(self, op, b)
            if r is not NotImplemented:
                return r
        if isinstance(b, AbsVal):
            r = b.rbinop(self, op, a)
            if r is not NotImplemented:
                return r
        return Top('operator %s' % op)

    def percent(self, fmt, arg):
        if isinstance(arg, Top):
            # it may be a tuple or a mapping: nothing is known of the count
            return AStr(re.sub(
                r'%(\(\w+\))?[-#0 +]*\d*(\.\d+)?[diouxXeEfFgGcrsa]', '<?>',
                str(fmt)).replace('%%', '%'))
        args = arg if isinstance(arg, tuple) else (arg,)
        conv = [self.host_str(x) for x in args]
        try:
            f = _loosen_percent(fmt)
            if isinstance(arg, DictVal):
                return AStr(fmt)
            s = f % tuple(conv)
        except TypeError as e:
            self.throw('TypeError', str(e))
        except ValueError as e:
            self.throw('ValueError', str(e))
        return AStr(s)

    def host_str(self, v):
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return v
        if isinstance(v, str):
            return v
        if is_native(v):
            return str(v)
        f = getattr(v, 'host_str', None)
        if f is not None and not isinstance(v, (str,)):
            return f(self)
        return AStr('<%s>' % (v.kind() if isinstance(v, AbsVal)
                              else type(v).__name__))

    def unop(self, op, v):
        if op == 'not':
            if isinstance(v, Top):
                return Top(v.why)
            if isinstance(v, AbsVal):
                t = v.truth(self)
                return Top('not') if t is None else (not t)
            if isinstance(v, AStr) and not len(v):
                return Top('not')
            return not v
        if is_native(v):
            try:
                return {'-': operator.neg, '+': operator.pos,
                        '~': operator.invert}[op](v)
            except TypeError as e:
                self.throw('TypeError', str(e))
        if isinstance(v, AbsVal):
            return v.unop(self, op)
        return Top('unary')

    def compare(self, op, a, b):
        if op == 'in':
            return self.contains(b, a)
        if op == 'not in':
            r = self.contains(b, a)
            return self.unop('not', r)
        if isinstance(a, Top) or isinstance(b, Top):
            if op in ('is', 'is not') and a is b:
                return op == 'is'
            return Top((a if isinstance(a, Top) else b).why)
        if op in ('is', 'is not'):
            if a is None or b is None or isinstance(a, bool) or \
                    isinstance(b, bool) or a is Ellipsis or b is Ellipsis:
                if isinstance(a, AbsVal) or isinstance(b, AbsVal):
                    x = a if isinstance(a, AbsVal) else b
                    if getattr(x, 'maybe_none', False):
                        return Top('is None')
                    return op == 'is not'
                same = a is b
                return same if op == 'is' else not same
            if not isinstance(a, AbsVal) and not isinstance(b, AbsVal):
                if type(a) is type(b) and isinstance(a, (int, str)):
                    if a != b:
                        return op == 'is not'
                    return op == 'is'
                return (a is b) == (op == 'is')
            if isinstance(a, AbsVal):
                r = a.compare(self, op, b)
                if r is not NotImplemented:
                    return r
            if isinstance(b, AbsVal):
                r = b.compare(self, op, a)
                if r is not NotImplemented:
                    return r
            if a is b:
                return op == 'is'
            if isinstance(a, Mutable) and isinstance(b, Mutable):
                return op == 'is not'
            return Top('identity')
        if is_native(a) and is_native(b):
            try:
                return CMP[op](a, b)
            except TypeError as e:
                self.throw('TypeError', str(e))
        if isinstance(a, AStr) or isinstance(b, AStr):
            if op in ('==', '!=') and not (isinstance(a, str) and
                                           isinstance(b, str)):
                return op == '!='
            return Top('abstract string')
        if isinstance(a, tuple) and isinstance(b, tuple):
            if op in ('==', '!='):
                r = self.seq_eq(a, b)
                if isinstance(r, Top):
                    return r
                return r if op == '==' else not r
            return self.seq_cmp(op, a, b)
        if isinstance(a, AbsVal):
            r = a.compare(self, op, b)
            if r is not NotImplemented:
                return r
        if isinstance(b, AbsVal):
            if op in SWAP:
                r = b.compare(self, SWAP[op], a)
                if r is not NotImplemented:
                    return r
        if op in ('==', '!='):
            if a is b:
                return op == '=='
            if a is None or b is None:
                return op == '!='
            if isinstance(a, (str, tuple)) != isinstance(b, (str, tuple)) \
                    and not isinstance(a, (Ext,)) \
                    and not isinstance(b, (Ext,)):
                x = b if isinstance(a, (str, tuple)) else a
                if not getattr(x, 'elementwise', False):
                    return op == '!='
        if op in ('<', '<=', '>', '>=') and (a is None or b is None):
            self.throw('TypeError', 'unorderable')
        return Top('comparison')

    def seq_cmp(self, op, a, b):
        for x, y in zip(a, b):
            r = self.compare('==', x, y)
            if r is True:
                continue
            if r is False:
                return self.compare(op, x, y)
            return Top('tuple comparison')
        return CMP[op](len(a), len(b))

    def seq_eq(self, a, b):
        if len(a) != len(b):
            return False
        unk = False
        for x, y in zip(a, b):
            r = self.compare('==', x, y)
            if isinstance(r, AbsVal):
                r = r.truth(self)
            if r is False:
                return False
            if r is not True:
                unk = True
        return Top('sequence equality') if unk else True

    def any_eq(self, items, x):
        unk = False
        for y in items:
            if y is x:
                return True
            if isinstance(y, Rep):
                unk = True
                continue
            r = self.compare('==', y, x)
            if isinstance(r, AbsVal) and not isinstance(r, Top):
                r = r.truth(self)
            if r is True:
                return True
            if r is not False:
                unk = True
        return Top('containment') if unk else False

    def contains(self, c, x):
        if isinstance(c, AbsVal):
            return c.contains(self, x)
        if isinstance(c, str):
            if is_native(c) and is_native(x):
                try:
                    return x in c
                except TypeError as e:
                    self.throw('TypeError', str(e))
            return Top('abstract string containment')
        if isinstance(c, tuple):
            return self.any_eq(c, x)
        self.throw('TypeError', 'argument is not iterable')

    def iterate(self, v):
        """list of values | SymSeq | Top"""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, AStr):
            return Top('abstract string')
        if isinstance(v, str):
            return list(v)
        if isinstance(v, AbsVal):
            r = v.iter(self)
            if isinstance(r, (list, tuple)):
                return list(r)
            if isinstance(r, (SymSeq, Top)):
                return r
            return Top('iteration')
        self.throw('TypeError', 'object is not iterable')

    def length(self, v):
        if isinstance(v, AbsVal):
            return v.len(self)
        if isinstance(v, AStr):
            return Top('len of abstract string')
        try:
            return len(v)
        except TypeError as e:
            self.throw('TypeError', str(e))

    def getitem(self, v, key):
        if isinstance(v, AbsVal):
            return v.getitem(self, key)
        if isinstance(v, (str, tuple)) and not isinstance(v, AStr):
            if isinstance(key, (int, slice)):
                try:
                    return v[key]
                except IndexError as e:
                    self.throw('IndexError', str(e))
                except TypeError:
                    return Top('slice')
            return Top('item')
        if isinstance(v, AStr):
            return AStr('<part>')
        if v is None or isinstance(v, (int, float)):
            self.throw('TypeError', 'object is not subscriptable')
        return Top('item')

    def sorted(self, items, key, reverse):
        import functools
        ks = items if key is None else [self.call(key, [x]) for x in items]

        class Unk(Exception):
            pass

        def c(a, b):
            r = self.compare('<', a[0], b[0])
            if isinstance(r, AbsVal):
                r = r.truth(self)
            if r is True:
                return -1
            if r is not False:
                raise Unk()
            r = self.compare('<', b[0], a[0])
            if r is True:
                return 1
            if r is not False:
                raise Unk()
            return 0
        rv = self.truth(reverse)
        try:
            s = sorted(zip(ks, items), key=functools.cmp_to_key(c),
                       reverse=rv)
        except Unk:
            return None
        return [x for _, x in s]

    # ---- statements

    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided('analysis budget exhausted')
        self.lineno = st.lineno
        m = EXEC.get(type(st))
        if m is None:
            raise Undecided('statement %s' % type(st).__name__)
        m(self, st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        op = AST_BIN[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            v = self.iop(op, cur, self.eval(st.value, env))
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.iop(op, cur, self.eval(st.value, env))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            v = self.iop(op, cur, self.eval(st.value, env))
            self.setitem(o, k, v)

    def iop(self, op, a, b):
        if isinstance(a, AbsVal):
            f = getattr(a, 'iadd', None)
            if f is not None:
                r = f(self, op, b)
                if r is not NotImplemented:
                    return r
        return self.binop(op, a, b)

    def setattr(self, o, name, v):
        if isinstance(o, AbsVal):
            o.setattr(self, name, v)
        else:
            self.throw('AttributeError', name)

    def setitem(self, o, k, v):
        if isinstance(o, AbsVal):
            o.setitem(self, k, v)
        else:
            self.throw('TypeError', 'item assignment')

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                e = env
                if t.id in e.vars:
                    del e.vars[t.id]
                else:
                    self.throw('NameError', t.id)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                f = getattr(o, 'delitem', None)
                if f is None:
                    self.soften('del item')
                else:
                    f(self, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                f = getattr(o, 'delattr', None)
                if f is None:
                    self.soften('del attribute')
                else:
                    f(self, t.attr)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.iterate(v)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if not isinstance(it, list) or any(isinstance(x, Rep)
                                               for x in it):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e,
                                Top('unpack'), env)
                if not isinstance(it, Top):
                    self.soften('unpack of symbolic sequence')
                return
            if star:
                i = star[0]
                after = n - i - 1
                if len(it) < n - 1:
                    self.throw('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], it[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value,
                            ListVal(self, it[i:len(it) - after]), env)
                for e, x in zip(t.elts[i + 1:], it[len(it) - after:]):
                    self.assign(e, x, env)
                return
            if len(it) != n:
                self.throw('ValueError', 'unpack: expected %d values, got %d'
                           % (n, len(it)))
            for e, x in zip(t.elts, it):
                self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Undecided('assignment target')

    def store_name(self, name, v, env):
        if name in env.globals_:
            env.module.env[name] = v
            if self.phase != 'module':
                self.write(env.module, 'global %s' % name)
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
            return
        env.vars[name] = v

    def x_If(self, st, env):
        if self.truth(self.eval(st.test, env), 'if at line %d' % st.lineno):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_While(self, st, env):
        n = 0
        while True:
            self.tick()
            if not self.truth(self.eval(st.test, env), 'while'):
                break
            n += 1
            if n > 400:
                raise Undecided('while loop bound, analysis budget')
            try:
                self.exec_block(st.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(st.orelse, env)

    def x_For(self, st, env):
        it = self.iterate(self.eval(st.iter, env))
        if isinstance(it, Top):
            if self.choose(2, 'loop over unknown') == 0:
                self.exec_block(st.orelse, env)
                return
            it = SymSeq(('unknown',), lambda I: Top('loop element'))
        if isinstance(it, SymSeq):
            self.sym_for(st, it, env)
            return
        for x in it:
            if isinstance(x, Rep):
                sub = SymSeq(x.dom, lambda I, x=x: x.items[0])
                self.sym_for(st, sub, env, orelse=False)
                continue
            self.assign(st.target, x, env)
            try:
                self.exec_block(st.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(st.orelse, env)

    def sym_for(self, st, seq, env, orelse=True):
        names = assigned_names(st.body)
        for nm in names:
            if nm in env.vars and not isinstance(env.vars[nm], Mutable):
                env.vars[nm] = Top('loop-carried %s' % nm)
        self.symloop.append(seq)
        try:
            self.assign(st.target, seq.generic(self), env)
            try:
                self.exec_block(st.body, env)
            except BreakSig:
                self.soften('break out of a symbolic loop')
            except ContinueSig:
                pass
            except ReturnSig:
                self.soften('return out of a symbolic loop')
                raise
        finally:
            self.symloop.pop()
        for nm in names:
            if nm in env.vars and not isinstance(env.vars[nm], Mutable):
                env.vars[nm] = Top('loop-carried %s' % nm)
        if orelse:
            self.exec_block(st.orelse, env)

    def x_Return(self, st, env):
        raise ReturnSig(None if st.value is None
                        else self.eval(st.value, env))

    def x_Pass(self, st, env):
        pass

    def x_Break(self, st, env):
        raise BreakSig()

    def x_Continue(self, st, env):
        raise ContinueSig()

    def x_Global(self, st, env):
        env.globals_ = tuple(env.globals_) + tuple(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(st.names)

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.throw('AssertionError')

    def x_Raise(self, st, env):
        if st.exc is None:
            e = env
            while e is not None:
                if '#exc' in e.vars and e.vars['#exc'] is not None:
                    raise e.vars['#exc']
                e = e.parent
            self.throw('RuntimeError', 'No active exception to reraise')
        site = self.where()
        v = self.eval(st.exc, env)
        if st.cause is not None:
            self.eval(st.cause, env)
        self.lineno = st.lineno
        if isinstance(v, Ext) and exc_class(v.path) is not None:
            v = ExcVal(v.path, [], st)
        elif isinstance(v, ClassVal):
            v = self.instantiate(v, [], {})
        if isinstance(v, (ExcVal, InstVal)):
            h = self.hooks.get('raise')
            if h:
                h(self, st, v, site)
            raise PyExc(v, site)
        self.soften('raise of unknown value')
        raise PyExc(ExcVal('builtins.Exception', []), site)

    def exc_matches(self, exc, spec):
        """True/False/None"""
        if isinstance(spec, tuple):
            rs = [self.exc_matches(exc, s) for s in spec]
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        if isinstance(spec, ClassVal):
            return isinstance(exc, InstVal) and exc.cls.subclass_of(spec)
        if isinstance(spec, Ext):
            if isinstance(exc, InstVal):
                return exc.isinstance_of(self, spec.path)
            return exc_sub(exc.path, spec.path)
        return None

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None:
                        m = True
                    else:
                        m = self.exc_matches(e.val, self.eval(h.type, env))
                    if m is None:
                        m = self.choose(2, 'handler match') == 0
                    if m:
                        if h.name:
                            env.vars[h.name] = e.val
                        saved = env.vars.get('#exc')
                        env.vars['#exc'] = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            env.vars['#exc'] = saved
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            self.exec_block(st.finalbody, env)
            raise
        self.exec_block(st.finalbody, env)

    def x_With(self, st, env):
        ctxs = []
        for item in st.items:
            c = self.eval(item.context_expr, env)
            v = c
            if isinstance(c, InstVal):
                en = c._method('__enter__')
                if en is not None:
                    v = self.call(BoundMethod(c, en), [])
                ctxs.append(c)
            elif isinstance(c, AbsVal) and hasattr(c, 'ctx_enter'):
                v = c.ctx_enter(self)
                ctxs.append(c)
            elif isinstance(c, Top):
                self.soften('with on unknown')
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        def leave(exc):
            sw = False
            for c in reversed(ctxs):
                r = None
                if isinstance(c, InstVal):
                    ex = c._method('__exit__')
                    if ex is not None:
                        r = self.call(BoundMethod(c, ex),
                                      [None if exc is None else exc.val] * 3)
                elif hasattr(c, 'ctx_exit'):
                    r = c.ctx_exit(self, exc)
                if exc is not None and r is not None and r is not False and \
                        self.truth(r):
                    sw = True
            return sw
        try:
            self.exec_block(st.body, env)
        except PyExc as e:
            if leave(e):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            leave(None)
            raise
        leave(None)

    def x_Import(self, st, env):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, env)
            else:
                root = a.name.split('.')[0]
                self.store_name(root, self.modules[root]
                                if root in self.modules else self.ext(root),
                                env)

    def x_ImportFrom(self, st, env):
        if st.module == '__future__':
            return
        name = st.module or ''
        if st.level:
            base = env.module.name.split('.')
            if not env.module.package:
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            name = '.'.join(base + ([st.module] if st.module else []))
        for a in st.names:
            if a.name == '*':
                m = self.import_module(name)
                if isinstance(m, ModuleVal):
                    al = m.env.get('__all__')
                    ns = self.iterate(al) if al is not None else \
                        [k for k in m.env if not k.startswith('_')]
                    for k in ns:
                        self.store_name(k, m.env[k], env)
                continue
            key = name + '.' + a.name
            if key in self.ctx.get('missing_names', ()) or \
                    name in self.ctx.get('missing_modules', ()):
                self.throw('ImportError', key)
            m = self.import_module(name)
            if isinstance(m, ModuleVal):
                if a.name in m.env:
                    v = m.env[a.name]
                elif key in self.modules:
                    v = self.load(self.modules[key])
                else:
                    self.throw('ImportError', key)
            else:
                v = self.getattr(m, a.name)
            self.store_name(a.asname or a.name, v, env)

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {x.arg: self.eval(d, env)
               for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        q = name
        cenv = env
        if env.iscls:
            q = env.vars['#cls'] + '.' + name
        elif env.func is not None:
            q = env.func.qualname + '.' + name
        while cenv is not None and cenv.iscls:
            cenv = cenv.parent
        return FuncVal(node, cenv, env.module, name, defaults, kwd, q)

    def x_FunctionDef(self, st, env):
        decs = [self.eval(d, env) for d in st.decorator_list]
        f = self.make_func(st, env, st.name)
        v = f
        for d in reversed(decs):
            v = self.decorate(d, v)
        self.store_name(st.name, v, env)

    def decorate(self, d, v):
        if isinstance(d, Ext):
            p = d.path
            if p in ('builtins.property',):
                return PropVal(v)
            if p in ('abc.abstractproperty',):
                return PropVal(v, abstract=True)
            if p in ('abc.abstractmethod',):
                if isinstance(v, PropVal):
                    return PropVal(v.fget, v.fset, True)
                return v
            if p == 'builtins.staticmethod':
                return StaticVal(v)
            if p == 'builtins.classmethod':
                return StaticVal(v, True)
            if p in ('functools.wraps',):
                return v
        return self.call(d, [v])

    def x_ClassDef(self, st, env):
        bases = []
        for b in st.bases:
            v = self.eval(b, env)
            if isinstance(v, ClassVal):
                bases.append(v)
            elif isinstance(v, Ext):
                if v.path != 'builtins.object':
                    bases.append(v)
            elif isinstance(v, ObjBases):
                bases.extend(v.bases)
            else:
                bases.append(v if isinstance(v, Top) else Top('base'))
        cenv = Env(env, env.module, env.func, True)
        cenv.vars['#cls'] = st.name
        saved = self.lineno
        self.exec_block(st.body, cenv)
        self.lineno = saved
        d = {k: v for k, v in cenv.vars.items() if not k.startswith('#')}
        c = ClassVal(st.name, bases, d, env.module, st)
        for v in d.values():
            for f in _inner_funcs(v):
                if f.cls is None:
                    f.cls = c
        v = c
        for dec in reversed(st.decorator_list):
            v = self.decorate(self.eval(dec, env), v)
        self.store_name(st.name, v, env)

    # ---- expressions

    def eval(self, e, env):
        m = EVAL.get(type(e))
        if m is None:
            return Top('expression %s' % type(e).__name__)
        return m(self, e, env)

    def e_Constant(self, e, env):
        return e.value

    def load_name(self, name, env):
        s = env
        while s is not None:
            if name in s.vars and (s is env or not s.iscls):
                v = s.vars[name]
                return v
            s = s.parent
        g = env.module.env
        if name in g:
            return g[name]
        p = 'builtins.' + name
        if hasattr(_b, name) or p in self.models or p in self.consts:
            return self.ext(p)
        if name in ('unicode', 'basestring', 'xrange', 'long', 'reduce'):
            self.throw('NameError', name)
        # a local not yet assigned on this path, or an unknown global
        self.throw('NameError', name)

    def e_Name(self, e, env):
        return self.load_name(e.id, env)

    def e_Attribute(self, e, env):
        v = self.eval(e.value, env)
        self.lineno = e.lineno
        return self.getattr(v, e.attr)

    def eval_index(self, s, env):
        return self.eval(s, env)

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e, env):
        v = self.eval(e.value, env)
        k = self.eval_index(e.slice, env)
        self.lineno = e.lineno
        return self.getitem(v, k)

    def e_Index(self, e, env):
        return self.eval(e.value, env)

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.eval(a.value, env))
                if isinstance(it, list):
                    args.extend(it)
                else:
                    self.lineno = e.lineno
                    if isinstance(it, SymSeq):
                        args.append(Rep([it.generic(self)], it))
                        continue
                    self.havoc_args(args, kw)
                    self.soften('star-args of unknown length')
                    return Top('call with unknown arguments')
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, DictVal) and not v.unknown:
                    for kk, vv in v.d.values():
                        kw[kk] = vv
                else:
                    self.soften('**kwargs unknown')
                    return Top('call with unknown keywords')
            else:
                kw[k.arg] = v
        self.lineno = e.lineno
        # zero-argument super
        if isinstance(f, Ext) and f.path == 'builtins.super':
            return self.do_super(args, env)
        if isinstance(f, Ext) and f.path in ('builtins.locals',
                                             'builtins.globals',
                                             'builtins.vars',
                                             'builtins.exec',
                                             'builtins.eval'):
            return Top(f.path)
        h = self.hooks.get('call')
        if h:
            h(self, e, f, args, kw)
        return self.call(f, args, kw)

    def do_super(self, args, env):
        if len(args) == 2:
            if isinstance(args[0], ClassVal):
                return SuperVal(args[0], args[1])
            return Top('super')
        s = env
        while s is not None and s.func is None:
            s = s.parent
        f = s.func if s else None
        while f is not None and f.cls is None:
            # nested function / comprehension inside a method
            s = s.parent
            while s is not None and s.func is f:
                s = s.parent
            f = s.func if s else None
        if f is None:
            return Top('super')
        first = f.node.args.args[0].arg
        return SuperVal(f.cls, self.load_name(first, env))

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        self.lineno = e.lineno
        return self.binop(AST_BIN[type(e.op)], a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Top):
                return not self.truth(v, 'not')
            if isinstance(v, AbsVal) and v.truth(self) is None:
                return not self.truth(v, 'not')
            return self.unop('not', v)
        return self.unop({ast.USub: '-', ast.UAdd: '+',
                          ast.Invert: '~'}[type(e.op)], v)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, 'boolean operator')
            if t != isand:
                return v if not isinstance(v, Top) else t
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        n = len(e.ops)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, env)
            r = self.compare(AST_CMP[type(op)], left, right)
            if i == n - 1:
                return r
            if not self.truth(r, 'chained comparison'):
                return r if not isinstance(r, Top) else False
            left = right
        return True

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env), 'conditional'):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, env))
                if isinstance(it, list):
                    out.extend(it)
                elif isinstance(it, SymSeq):
                    out.append(Rep([it.generic(self)], it))
                else:
                    self.soften('starred of unknown length')
                    out.append(Rep([Top('starred')]))
            else:
                out.append(self.eval(x, env))
        return out

    def e_List(self, e, env):
        return ListVal(self, self.elts(e.elts, env))

    def e_Set(self, e, env):
        return SetVal(self, self.elts(e.elts, env))

    def e_Dict(self, e, env):
        d = DictVal(self)
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                if isinstance(o, DictVal):
                    d.d.update(o.d)
                    d.unknown = d.unknown or o.unknown
                else:
                    d.unknown = True
            else:
                kv = self.eval(k, env)
                d.setitem(self, kv, self.eval(v, env))
        return d

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_JoinedStr(self, e, env):
        parts, abst = [], False
        for x in e.values:
            v = self.eval(x, env)
            if isinstance(v, AStr) or not isinstance(v, str):
                abst = True
            parts.append(str(v))
        s = ''.join(parts)
        return AStr(s) if abst else s

    def e_FormattedValue(self, e, env):
        v = self.eval(e.value, env)
        spec = self.eval(e.format_spec, env) if e.format_spec else ''
        if e.conversion == 114:
            v = self.models['builtins.repr'](self, v)
        elif e.conversion == 115:
            v = self.models['builtins.str'](self, v)
        f = getattr(v, 'host_format', None)
        if f is not None:
            r = f(self, spec)
            if r is not None:
                return r
        if is_native(v) and not isinstance(spec, AStr):
            try:
                return format(v, spec)
            except Exception as ex:
                self.throw(type(ex).__name__, str(ex))
        h = self.host_str(v)
        return h if isinstance(h, str) and not isinstance(h, AStr) and \
            not spec else AStr(h)

    def comp(self, gens, env, emit):
        """Run comprehension clauses."""
        cenv = Env(env, env.module, env.func)

        def go(i):
            if i == len(gens):
                emit(cenv)
                return
            g = gens[i]
            src = env if i == 0 else cenv
            it = self.iterate(self.eval(g.iter, src))
            if isinstance(it, Top):
                if self.choose(2, 'comprehension over unknown') == 0:
                    return
                it = SymSeq(('unknown',), lambda I: Top('loop element'))
            if isinstance(it, SymSeq):
                seqs = [(it, it.generic)]
                self.symloop.append(it)
                try:
                    step(i, g, it.generic(self))
                finally:
                    self.symloop.pop()
                return
            for x in it:
                if isinstance(x, Rep):
                    self.symloop.append(x.dom)
                    try:
                        step(i, g, x.items[0])
                    finally:
                        self.symloop.pop()
                else:
                    step(i, g, x)

        def step(i, g, x):
            self.tick()
            self.assign(g.target, x, cenv)
            for c in g.ifs:
                if not self.truth(self.eval(c, cenv), 'comprehension filter'):
                    return
            go(i + 1)
        go(0)

    def e_ListComp(self, e, env):
        out, n = [], len(self.symloop)
        self.comp(e.generators, env,
                  lambda ce: out.append(self.rep(self.eval(e.elt, ce), n)))
        return ListVal(self, out)

    def e_GeneratorExp(self, e, env):
        out, n = [], len(self.symloop)
        self.comp(e.generators, env,
                  lambda ce: out.append(self.rep(self.eval(e.elt, ce), n)))
        return IterVal(out)

    def e_SetComp(self, e, env):
        out = []
        self.comp(e.generators, env,
                  lambda ce: out.append(self.eval(e.elt, ce)))
        return SetVal(self, out)

    def e_DictComp(self, e, env):
        d = DictVal(self)

        def emit(ce):
            k = self.eval(e.key, ce)
            d.setitem(self, k, self.eval(e.value, ce))
        self.comp(e.generators, env, emit)
        return d

    def e_Yield(self, e, env):
        v = None if e.value is None else self.eval(e.value, env)
        s = env
        while '#yield' not in s.vars:
            s = s.parent
        s.vars['#yield'].append(self.rep(v, s.vars['#loops']))
        return None

    def e_YieldFrom(self, e, env):
        it = self.iterate(self.eval(e.value, env))
        s = env
        while '#yield' not in s.vars:
            s = s.parent
        if isinstance(it, list):
            s.vars['#yield'].extend(self.rep(x, s.vars['#loops'])
                                    for x in it)
        else:
            s.vars['#yield'].append(Rep([Top('yield from')]))
        return None

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        return self.eval(e.value, env)


class ObjBases(AbsVal):
    def __init__(self, bases):
        self.bases = bases


class StrMethod(AbsVal):
    def __init__(self, s, name):
        self.s, self.name = s, name

    def call(self, I, args, kw):
        s, name = self.s, self.name
        if not hasattr('', name):
            I.throw('AttributeError', name)
        if name == 'format':
            return str_format(I, s, args, kw)
        if name == 'format_map' and len(args) == 1 and \
                isinstance(args[0], DictVal):
            d = args[0]
            if not d.unknown and all(isinstance(k, str)
                                     for k in d.keylist()):
                return str_format(I, s, [], dict(d.d.values()))
        if name == 'join':
            it = I.iterate(args[0])
            if not isinstance(it, list) or any(isinstance(x, Rep)
                                               for x in it):
                return AStr('<joined>')
            for x in it:
                if not isinstance(x, (str, AbsVal)):
                    I.throw('TypeError', 'sequence item: expected str')
            if is_native(s) and all(is_native(x) for x in it):
                return s.join(it)
            return AStr(str(s).join(
                str(x) if isinstance(x, str) else '<x>' for x in it))
        nat = is_native(s) and all(is_native(a) for a in args) and \
            all(is_native(v) for v in kw.values())
        try:
            a = [x.items if isinstance(x, ListVal) else x for x in args]
            if name in ('startswith', 'endswith') and not nat:
                return Top('abstract string')
            if any(isinstance(x, AbsVal) for x in a):
                return Top('string method %s' % name)
            r = getattr(str(s), name)(*a, **kw)
        except Exception as e:
            I.throw(type(e).__name__, str(e))
        if isinstance(r, list):
            return ListVal(I, [x if nat else AStr(x) for x in r])
        if not nat:
            if isinstance(r, str):
                return AStr(r)
            return Top('abstract string method')
        return r

    def truth(self, I):
        return True


class _Fmt(object):
    """Stand-in for an abstract value inside a format string."""

    def __init__(self, I, v, log):
        self.I, self.v, self.log = I, v, log

    def __format__(self, spec):
        f = getattr(self.v, 'host_format', None)
        if f is not None:
            r = f(self.I, spec)
            if r is not None:
                if isinstance(r, AStr):
                    self.log.append(1)
                return r
        self.log.append(1)
        h = str(self.I.host_str(self.v))
        try:
            return format(h, spec)
        except ValueError:
            return h

    def __str__(self):
        return self.__format__('')

    __repr__ = __str__

    def __getattr__(self, name):
        v = self.I.getattr(self.v, name)
        return v if is_native(v) else _Fmt(self.I, v, self.log)

    def __getitem__(self, k):
        v = self.I.getitem(self.v, k)
        return v if is_native(v) else _Fmt(self.I, v, self.log)


def str_format(I, s, args, kw):
    log = []
    wrap = lambda v: v if is_native(v) else _Fmt(I, v, log)
    try:
        r = str(s).format(*[wrap(a) for a in args],
                          **{k: wrap(v) for k, v in kw.items()})
    except (KeyError, IndexError, ValueError, AttributeError, TypeError) as e:
        I.throw(type(e).__name__, str(e))
    if log or isinstance(s, AStr):
        return AStr(r)
    return r


def _loosen_percent(fmt):
    import re
    return re.sub(r'%([-#0 +]*\d*(?:\.\d+)?)([diouxXeEfFgGcrsa%])',
                  lambda m: '%%' if m.group(2) == '%'
                  else '%' + m.group(1).replace('0', '').replace('+', '')
                  + 's', fmt)


def _inner_funcs(v):
    if isinstance(v, FuncVal):
        yield v
    elif isinstance(v, PropVal):
        for f in (v.fget, v.fset):
            if f is not None:
                for g in _inner_funcs(f):
                    yield g
    elif isinstance(v, StaticVal):
        for g in _inner_funcs(v.f):
            yield g
    elif isinstance(v, InstVal):
        for x in v.d.values():
            for g in _inner_funcs(x):
                yield g


_gen_cache = {}


def is_generator(node):
    r = _gen_cache.get(node)
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.GeneratorExp)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = r
    return r


def assigned_names(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


EXEC = {getattr(ast, k[2:]): getattr(Interp, k) for k in dir(Interp)
        if k.startswith('x_')}
EVAL = {getattr(ast, k[2:]): getattr(Interp, k) for k in dir(Interp)
        if k.startswith('e_') and hasattr(ast, k[2:])}


# --------------------------------------------------------------------------
# loading the package


_parse_cache = {}


def load_package(root, package='trading_calendars', skip=('_version',)):
    """Parse every module of the package; returns {dotted name: ModuleVal}."""
    mods = {}
    base = os.path.join(root, package)
    if not os.path.isdir(base):
        raise AnalysisError('package directory %s not found' % base)
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            parts = rel[:-3].split(os.sep)
            pkg = parts[-1] == '__init__'
            if pkg:
                parts = parts[:-1]
            if parts[-1] in skip:
                continue
            if p not in _parse_cache:
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    _parse_cache[p] = ast.parse(src, rel)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
            mods['.'.join(parts)] = ModuleVal('.'.join(parts), rel,
                                              _parse_cache[p], pkg)
    return mods
