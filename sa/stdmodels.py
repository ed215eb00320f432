"""Models of builtins and of the small standard-library / toolz surface."""
from .core import (AbsVal, Top, Ext, ListVal, DictVal, SetVal, SymSeq, IterVal,
                   Rep, ClassVal, InstVal, FuncVal, BoundMethod, BoundModel,
                   PropVal, StaticVal, AStr, ExcVal, ObjBases, ModuleVal,
                   KeysView, SuperVal, is_native, exc_class, hk, has_top, Undecided)

M = {}
C = {}


def model(*paths):
    def deco(f):
        for p in paths:
            M[p] = f
        return f
    return deco


class Opaque(AbsVal):
    """A known, uninteresting object (its methods return nothing)."""

    def __init__(self, name):
        self.name = name

    def kind(self):
        return self.name

    def truth(self, I):
        return True

    def ctx_enter(self, I):
        return self

    def ctx_exit(self, I, exc):
        return None


# ---- builtins


@model('builtins.len')
def _len(I, v):
    return I.length(v)


@model('builtins.isinstance')
def _isinstance(I, v, t):
    if isinstance(t, tuple):
        rs = [_isinstance(I, v, x) for x in t]
        if any(r is True for r in rs):
            return True
        return Top('isinstance') if any(isinstance(r, Top) for r in rs) \
            else False
    if isinstance(v, Top):
        return Top('isinstance')
    if isinstance(t, ClassVal):
        if isinstance(v, InstVal):
            r = v.cls.subclass_of(t)
            return Top() if not r and v.cls.has_unknown_base() else r
        return False
    if isinstance(t, Ext):
        p = t.path
        if p.startswith('builtins.') and not isinstance(v, AbsVal):
            c = {'int': int, 'str': str, 'float': float, 'bool': bool,
                 'tuple': tuple, 'bytes': bytes, 'list': list, 'dict': dict,
                 'set': set, 'object': object}.get(p[9:])
            if c is not None:
                return isinstance(v, c)
        if p == 'builtins.object':
            return True
        if not isinstance(v, AbsVal):
            if p in ('numpy.integer', 'numpy.int64'):
                return Top('int kind') if isinstance(v, int) else False
            if p in ('numbers.Integral', 'numbers.Number', 'numbers.Real'):
                return isinstance(v, (int, float))
            if p == 'six.string_types':
                return isinstance(v, str)
            return False
        if isinstance(v, ClassVal) and p in ('builtins.type',):
            return True
        r = v.isinstance_of(I, p)
        return Top('isinstance') if r is None else r
    return Top('isinstance')


@model('builtins.issubclass')
def _issubclass(I, v, t):
    if isinstance(v, ClassVal) and isinstance(t, (ClassVal, Ext)):
        return v.subclass_of(t)
    return Top('issubclass')


@model('builtins.type')
def _type(I, v, *a):
    if a:
        return Top('type()')
    if isinstance(v, InstVal):
        return v.cls
    if not isinstance(v, AbsVal):
        return Ext('builtins.' + type(v).__name__)
    if v.types:
        return Ext(v.types[0])
    return Top('type')


@model('builtins.getattr')
def _getattr(I, o, name, *default):
    if not isinstance(name, str) or isinstance(name, AStr):
        return Top('getattr')
    from .core import PyExc
    try:
        return I.getattr(o, name)
    except PyExc as e:
        if default and e.name() == 'AttributeError':
            return default[0]
        raise


@model('builtins.hasattr')
def _hasattr(I, o, name):
    from .core import PyExc
    if not isinstance(name, str) or isinstance(name, AStr):
        return Top('hasattr')
    try:
        r = I.getattr(o, name)
    except PyExc as e:
        if e.name() == 'AttributeError':
            return False
        raise
    return Top('hasattr') if isinstance(r, Top) else True


@model('builtins.setattr')
def _setattr(I, o, name, v):
    if not isinstance(name, str) or isinstance(name, AStr):
        I.soften('setattr')
        return None
    I.setattr(o, name, v)


@model('builtins.callable')
def _callable(I, v):
    if isinstance(v, (FuncVal, BoundMethod, BoundModel, ClassVal, Ext)):
        return True
    if isinstance(v, InstVal):
        return v._method('__call__') is not None or \
            (Top() if v.cls.ext_bases() else False)
    if isinstance(v, AbsVal):
        return Top('callable')
    return False


@model('builtins.id')
def _id(I, v):
    return IdVal(v)


class IdVal(AbsVal):
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, IdVal) and o.v is self.v

    def __hash__(self):
        return id(self.v)

    def compare(self, I, op, other):
        if isinstance(other, IdVal) and op in ('==', '!='):
            if isinstance(self.v, Top) or isinstance(other.v, Top):
                return Top()
            return (self.v is other.v) == (op == '==')
        return NotImplemented


@model('builtins.print')
def _print(I, *args, **kw):
    out = kw.get('file')
    if out is not None and hasattr(out, 'sink'):
        end = kw.get('end', '\n')
        sep = kw.get('sep', ' ')
        out.sink(I, args, sep, end)
    elif 'print' in I.hooks:
        I.hooks['print'](I, args, kw)
    return None


@model('builtins.int')
def _int(I, v=0, base=None):
    if is_native(v):
        try:
            return int(v) if base is None else int(v, base)
        except (ValueError, TypeError) as e:
            I.throw(type(e).__name__, str(e))
    f = getattr(v, 'to_int', None)
    return f(I) if f else Top('int()')


@model('builtins.float')
def _float(I, v=0.0):
    if is_native(v):
        try:
            return float(v)
        except (ValueError, TypeError) as e:
            I.throw(type(e).__name__, str(e))
    return Top('float()')


@model('builtins.bool')
def _bool(I, v=False):
    if isinstance(v, Top):
        return v
    if isinstance(v, AbsVal):
        t = v.truth(I)
        return Top('bool') if t is None else t
    return bool(v)


@model('builtins.str', 'six.text_type')
def _str(I, v='', *a, **k):
    if is_native(v):
        return str(v)
    if isinstance(v, AStr):
        return v
    if isinstance(v, InstVal):
        for n in ('__str__', '__repr__'):
            m = v._method(n)
            if m is not None:
                return I.call(BoundMethod(v, m), [])
    f = getattr(v, 'to_str', None)
    if f is not None:
        return f(I)
    h = I.host_str(v)
    return h if isinstance(h, AStr) else AStr(h)


@model('builtins.repr')
def _repr(I, v):
    if is_native(v):
        return repr(v)
    f = getattr(v, 'to_repr', None)
    if f is not None:
        return f(I)
    return AStr('<repr>')


@model('builtins.format')
def _format(I, v, spec=''):
    if is_native(v) and is_native(spec):
        return format(v, spec)
    return AStr('<format>')


@model('builtins.list')
def _list(I, v=()):
    it = I.iterate(v)
    if isinstance(it, list):
        return ListVal(I, it)
    if isinstance(it, SymSeq):
        src = getattr(v, 'as_list', None)
        if src is not None:
            return src(I)
        return ListVal(I, [Rep([it.generic(I)], it)])
    return Top('list()')


@model('builtins.tuple')
def _tuple(I, v=()):
    it = I.iterate(v)
    if isinstance(it, list) and not any(isinstance(x, Rep) for x in it):
        return tuple(it)
    return Top('tuple()')


@model('builtins.set', 'builtins.frozenset')
def _set(I, v=()):
    it = I.iterate(v)
    if isinstance(it, list):
        return SetVal(I, it)
    return Top('set()')


@model('builtins.dict', 'collections.OrderedDict')
def _dict(I, *args, **kw):
    d = DictVal(I)
    d.m_update(I, *args, **kw)
    return d


@model('builtins.range', 'builtins.xrange')
def _range(I, *a):
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 20000:
            return Top('range')
        return RangeVal(r)
    for x in a:
        f = getattr(x, 'sym_range', None)
        if f is not None:
            return f(I, a)
    return Top('range')


class RangeVal(AbsVal):
    types = ('builtins.range',)

    def __init__(self, r):
        self.r = r

    def iter(self, I):
        return list(self.r)

    def len(self, I):
        return len(self.r)

    def truth(self, I):
        return bool(len(self.r))

    def contains(self, I, x):
        return x in self.r if isinstance(x, int) else \
            (Top() if isinstance(x, AbsVal) else False)

    def getitem(self, I, k):
        if isinstance(k, int):
            try:
                return self.r[k]
            except IndexError as e:
                I.throw('IndexError', str(e))
        if isinstance(k, slice):
            return RangeVal(self.r[k])
        return Top()


def zip_(I, *seqs):
    its = [I.iterate(s) for s in seqs]
    if any(isinstance(i, Top) for i in its):
        return Top('zip')
    if all(isinstance(i, list) for i in its):
        if any(isinstance(x, Rep) for i in its for x in i):
            return Top('zip of repeated')
        return IterVal([tuple(t) for t in zip(*its)])
    syms = [i for i in its if isinstance(i, SymSeq)]
    if len(syms) == len(its) and all(s.dom == syms[0].dom for s in syms):
        return SymSeq(syms[0].dom,
                      lambda I: tuple(s.generic(I) for s in syms))
    return Top('zip of mixed lengths')


M['builtins.zip'] = zip_
M['itertools.izip'] = zip_
M['six.moves.zip'] = zip_


@model('builtins.enumerate')
def _enumerate(I, s, start=0):
    it = I.iterate(s)
    if isinstance(it, list):
        if any(isinstance(x, Rep) for x in it) or not isinstance(start, int):
            return Top('enumerate')
        return IterVal([(i + start, x) for i, x in enumerate(it)])
    if isinstance(it, SymSeq):
        f = I.ctx.get('sym_enumerate')
        if f is not None and start == 0:
            return f(I, it)
        return SymSeq(it.dom, lambda I: (Top('index'), it.generic(I)))
    return Top('enumerate')


@model('builtins.map', 'toolz.map', 'itertools.imap')
def _map(I, f, *seqs):
    if len(seqs) == 1:
        it = I.iterate(seqs[0])
        if isinstance(it, list):
            if any(isinstance(x, Rep) for x in it):
                return IterVal([Rep([I.call(f, [x.items[0]])], x.dom)
                                if isinstance(x, Rep) else I.call(f, [x])
                                for x in it])
            return IterVal([I.call(f, [x]) for x in it])
        if isinstance(it, SymSeq):
            return SymSeq(it.dom, lambda I: I.call(f, [it.generic(I)]))
        return Top('map')
    z = zip_(I, *seqs)
    it = I.iterate(z)
    if isinstance(it, list):
        return IterVal([I.call(f, list(x)) for x in it])
    if isinstance(it, SymSeq):
        return SymSeq(it.dom, lambda I: I.call(f, list(it.generic(I))))
    return Top('map')


@model('builtins.filter', 'toolz.filter')
def _filter(I, f, s):
    it = I.iterate(s)
    if not isinstance(it, list):
        return Top('filter')
    out = []
    for x in it:
        r = x if f is None else I.call(f, [x])
        if I.truth(r, 'filter'):
            out.append(x)
    return IterVal(out)


@model('builtins.iter')
def _iter(I, s, *a):
    if isinstance(s, IterVal):
        return s
    it = I.iterate(s)
    if isinstance(it, list):
        return IterVal(it)
    return it if isinstance(it, SymSeq) else Top('iter')


@model('builtins.next')
def _next(I, it, *default):
    if isinstance(it, IterVal):
        if it.pos < len(it.items):
            x = it.next(I)
            return Top('next') if isinstance(x, Rep) else x
        if default:
            return default[0]
        I.throw('StopIteration')
    return Top('next')


@model('builtins.sorted')
def _sorted(I, s, key=None, reverse=False):
    it = I.iterate(s)
    if not isinstance(it, list):
        f = getattr(s, 'np_sort', None)
        return f(I) if f else Top('sorted')
    r = I.sorted(it, key, reverse)
    return Top('sorted') if r is None else ListVal(I, r)


@model('builtins.reversed')
def _reversed(I, s):
    it = I.iterate(s)
    if not isinstance(it, list):
        return Top('reversed')
    return IterVal(it[::-1])


def _extreme(op):
    def f(I, *args, **kw):
        key = kw.get('key')
        if len(args) == 1:
            h = getattr(args[0], 'np_' + ('max' if op == '>' else 'min'),
                        None)
            it = I.iterate(args[0])
            if not isinstance(it, list):
                return h(I) if h else Top('min/max')
        else:
            it = list(args)
        if any(isinstance(x, Rep) for x in it):
            return Top('min/max')
        if not it:
            if 'default' in kw:
                return kw['default']
            I.throw('ValueError', 'min/max of empty sequence')
        best = it[0]
        kb = best if key is None else I.call(key, [best])
        for x in it[1:]:
            kx = x if key is None else I.call(key, [x])
            r = I.compare(op, kx, kb)
            if isinstance(r, AbsVal):
                r = r.truth(I)
            if r is True:
                best, kb = x, kx
            elif r is not False:
                return Top('min/max')
        return best
    return f


M['builtins.max'] = _extreme('>')
M['builtins.min'] = _extreme('<')


@model('builtins.sum')
def _sum(I, s, start=0):
    it = I.iterate(s)
    if not isinstance(it, list):
        f = getattr(s, 'm_sum', None)
        return f(I) if f and start == 0 else Top('sum')
    tot = start
    for x in it:
        if isinstance(x, Rep):
            return Top('sum')
        tot = I.binop('+', tot, x)
    return tot


@model('builtins.any')
def _any(I, s):
    it = I.iterate(s)
    if not isinstance(it, list):
        f = getattr(s, 'm_any', None)
        return f(I) if f else Top('any')
    unk = False
    for x in it:
        y = x.items[0] if isinstance(x, Rep) else x
        t = y.truth(I) if isinstance(y, AbsVal) else bool(y)
        if t is True and not isinstance(x, Rep):
            return True
        if t is None or (t is True and isinstance(x, Rep)):
            unk = True
    return Top('any') if unk else False


@model('builtins.all')
def _all(I, s):
    it = I.iterate(s)
    if not isinstance(it, list):
        f = getattr(s, 'm_all', None)
        return f(I) if f else Top('all')
    unk = False
    for x in it:
        y = x.items[0] if isinstance(x, Rep) else x
        t = y.truth(I) if isinstance(y, AbsVal) else bool(y)
        if t is False and not isinstance(x, Rep):
            return False
        if t is None or (t is False and isinstance(x, Rep)):
            unk = True
    return Top('all') if unk else True


@model('builtins.abs')
def _abs(I, v):
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Top):
        return v
    r = I.compare('<', v, 0)
    if r is True:
        return I.unop('-', v)
    if r is False:
        return v
    return Top('abs')


@model('builtins.round')
def _round(I, v, n=None):
    if isinstance(v, (int, float)):
        return round(v) if n is None else round(v, n)
    return Top('round')


@model('builtins.divmod')
def _divmod(I, a, b):
    return (I.binop('//', a, b), I.binop('%', a, b))


@model('builtins.slice')
def _slice(I, *a):
    return slice(*a)


@model('builtins.hash')
def _hash(I, v):
    return Top('hash')


@model('builtins.ord')
def _ord(I, v):
    return ord(v) if is_native(v) else Top()


@model('builtins.chr')
def _chr(I, v):
    return chr(v) if is_native(v) else Top()


@model('builtins.property')
def _property(I, fget=None, fset=None, fdel=None, doc=None):
    return PropVal(fget, fset)


@model('abc.abstractproperty')
def _abstractproperty(I, fget=None):
    return PropVal(fget, None, True)


@model('builtins.staticmethod')
def _static(I, f):
    return StaticVal(f)


@model('builtins.classmethod')
def _classm(I, f):
    return StaticVal(f, True)


@model('builtins.object')
def _object(I):
    return Opaque('object')


def _exit(I, *a):
    I.throw('SystemExit', *a)


M['builtins.exit'] = _exit
M['builtins.quit'] = _exit
M['sys.exit'] = _exit


def _mk_exc(path):
    def f(I, *args, **kw):
        return ExcVal(path, list(args))
    return f


import builtins as _b
for _n in dir(_b):
    _c = getattr(_b, _n)
    if isinstance(_c, type) and issubclass(_c, BaseException):
        M['builtins.' + _n] = _mk_exc('builtins.' + _n)
C['builtins.NotImplemented'] = Top('NotImplemented')
C['builtins.__debug__'] = True


# ---- six / abc / warnings / itertools / collections / toolz / functools

@model('six.with_metaclass')
def _with_meta(I, meta, *bases):
    return ObjBases([b for b in bases])


C['six.PY2'] = False
C['six.PY3'] = True
C['six.string_types'] = (Ext('builtins.str'),)
C['six.integer_types'] = (Ext('builtins.int'),)


@model('six.iteritems')
def _iteritems(I, d):
    return I.call(I.getattr(d, 'items'), [])


@model('six.itervalues')
def _itervalues(I, d):
    return I.call(I.getattr(d, 'values'), [])


@model('six.iterkeys')
def _iterkeys(I, d):
    return I.call(I.getattr(d, 'keys'), [])


@model('warnings.catch_warnings')
def _cw(I, *a, **k):
    return Opaque('catch_warnings')


@model('warnings.simplefilter', 'warnings.filterwarnings', 'warnings.warn')
def _sf(I, *a, **k):
    return None


@model('itertools.chain', 'toolz.concatv')
def _chain(I, *seqs):
    out = []
    for s in seqs:
        it = I.iterate(s)
        if isinstance(it, list):
            out.extend(it)
        elif isinstance(it, SymSeq):
            out.append(Rep([it.generic(I)], it))
        else:
            return Top('chain')
    return IterVal(out)


@model('itertools.chain.from_iterable', 'toolz.concat')
def _chain_fi(I, s):
    it = I.iterate(s)
    if not isinstance(it, list) or any(isinstance(x, Rep) for x in it):
        return Top('chain')
    return _chain(I, *it)


@model('toolz.sliding_window')
def _sliding(I, n, s):
    it = I.iterate(s)
    if not isinstance(it, list) or any(isinstance(x, Rep) for x in it) or \
            not isinstance(n, int):
        return Top('sliding_window')
    return IterVal([tuple(it[i:i + n]) for i in range(len(it) - n + 1)])


@model('itertools.pairwise')
def _pairwise(I, s):
    return _sliding(I, 2, s)


@model('itertools.islice')
def _islice(I, s, *a):
    it = I.iterate(s)
    if not isinstance(it, list) or any(isinstance(x, Rep) for x in it) or \
            not all(x is None or isinstance(x, int) for x in a):
        return Top('islice')
    return IterVal(it[slice(*a)])


@model('itertools.zip_longest', 'itertools.izip_longest')
def _zipl(I, *seqs, **kw):
    import itertools
    its = [I.iterate(s) for s in seqs]
    if not all(isinstance(i, list) for i in its) or \
            any(isinstance(x, Rep) for i in its for x in i):
        return Top('zip_longest')
    return IterVal(list(itertools.zip_longest(
        *its, fillvalue=kw.get('fillvalue'))))


@model('itertools.product')
def _product(I, *seqs):
    import itertools
    its = [I.iterate(s) for s in seqs]
    if not all(isinstance(i, list) for i in its):
        return Top('product')
    return IterVal(list(itertools.product(*its)))


@model('itertools.repeat')
def _repeat(I, x, n=None):
    return IterVal([x] * n) if isinstance(n, int) else Top('repeat')


@model('itertools.accumulate')
def _acc(I, *a):
    return Top('accumulate')


@model('itertools.takewhile', 'itertools.dropwhile')
def _tw(I, *a):
    return Top('takewhile')


@model('toolz.first')
def _first(I, s):
    it = I.iterate(s)
    if isinstance(it, list) and it and not isinstance(it[0], Rep):
        return it[0]
    return Top('first')


@model('toolz.merge')
def _merge(I, *ds):
    d = DictVal(I)
    d.m_update(I, *ds)
    return d


@model('toolz.unique')
def _unique(I, s):
    it = I.iterate(s)
    if not isinstance(it, list):
        return Top('unique')
    seen, out = set(), []
    for x in it:
        k = hk(x)
        if k is None:
            return Top('unique')
        if k not in seen:
            seen.add(k)
            out.append(x)
    return IterVal(out)


class Partial(AbsVal):
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw

    def call(self, I, args, kw):
        k = dict(self.kw)
        k.update(kw)
        return I.call(self.f, list(self.args) + list(args), k)

    def truth(self, I):
        return True


@model('functools.partial', 'toolz.curry')
def _partial(I, f, *args, **kw):
    return Partial(f, args, kw)


@model('functools.wraps')
def _wraps(I, f, *a, **k):
    return BoundModel(Top(), 'wraps', lambda I, g: g)


@model('functools.update_wrapper')
def _uw(I, w, f, *a, **k):
    return w


@model('functools.reduce', 'builtins.reduce')
def _reduce(I, f, s, *init):
    it = I.iterate(s)
    if not isinstance(it, list) or any(isinstance(x, Rep) for x in it):
        return Top('reduce')
    it = list(init) + it
    if not it:
        I.throw('TypeError', 'reduce of empty sequence')
    acc = it[0]
    for x in it[1:]:
        acc = I.call(f, [acc, x])
    return acc


class OpFn(AbsVal):
    def __init__(self, op, kind):
        self.op, self.kind_ = op, kind

    def call(self, I, args, kw):
        if self.kind_ == 'b':
            return I.binop(self.op, args[0], args[1])
        return I.compare(self.op, args[0], args[1])

    def truth(self, I):
        return True


for _n, _o in dict(add='+', sub='-', mul='*', and_='&', or_='|', mod='%',
                   floordiv='//', truediv='/').items():
    C['operator.' + _n] = OpFn(_o, 'b')
for _n, _o in dict(eq='==', ne='!=', lt='<', le='<=', gt='>', ge='>=',
                   is_='is').items():
    C['operator.' + _n] = OpFn(_o, 'c')


@model('operator.itemgetter')
def _ig(I, *ks):
    if len(ks) == 1:
        return BoundModel(Top(), 'itemgetter',
                          lambda I, o: I.getitem(o, ks[0]))
    return BoundModel(Top(), 'itemgetter',
                      lambda I, o: tuple(I.getitem(o, k) for k in ks))


@model('operator.attrgetter')
def _ag(I, k):
    return BoundModel(Top(), 'attrgetter', lambda I, o: I.getattr(o, k))


class DefaultDict(DictVal):
    python = None
    def __init__(self, I, factory):
        DictVal.__init__(self, I)
        self.factory = factory

    def getitem(self, I, key):
        f, v = self.find(I, key)
        if f is False and self.factory is not None:
            v = I.call(self.factory, [])
            self.setitem(I, key, v)
            return v
        return DictVal.getitem(self, I, key)


@model('collections.defaultdict')
def _dd(I, f=None, *a):
    d = DefaultDict(I, f)
    if a:
        d.m_update(I, *a)
    return d


@model('collections.deque')
def _deque(I, s=(), maxlen=None):
    it = I.iterate(s)
    return ListVal(I, it) if isinstance(it, list) else Top('deque')


class NTClass(AbsVal):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields
        import collections
        self.cls = collections.namedtuple(name, fields)

    def call(self, I, args, kw):
        try:
            return self.cls(*args, **kw)
        except TypeError as e:
            I.throw('TypeError', str(e))

    def truth(self, I):
        return True


@model('collections.namedtuple')
def _nt(I, name, fields, **k):
    if isinstance(fields, str):
        return NTClass(name, fields.replace(',', ' ').split())
    it = I.iterate(fields)
    if isinstance(it, list) and all(isinstance(x, str) for x in it):
        return NTClass(name, it)
    return Top('namedtuple')


class WeakDict(DictVal):
    python = None
    """WeakKeyDictionary: keyed by object identity (or __eq__/__hash__)."""
    weak = True
    types = ('weakref.WeakKeyDictionary',)

    def find(self, I, key):
        if key is None or isinstance(key, (bool, int, float, str, bytes,
                                           tuple, IdVal)):
            I.throw('TypeError', 'cannot create weak reference')
        return DictVal.find(self, I, key)

    def setitem(self, I, key, value):
        self.find(I, key)
        DictVal.setitem(self, I, key, value)


@model('weakref.WeakKeyDictionary')
def _wkd(I, *a):
    d = WeakDict(I)
    d.m_update(I, *a)
    return d


@model('weakref.WeakValueDictionary')
def _wvd(I, *a):
    d = DictVal(I)
    d.unknown = True
    d.weak_values = True
    return d


@model('copy.copy', 'copy.deepcopy')
def _copy(I, v, *a):
    if isinstance(v, (ListVal, DictVal, SetVal)):
        return v.m_copy(I)
    f = getattr(v, 'm_copy', None)
    if f is not None:
        return f(I)
    if is_native(v):
        return v
    return Top('copy')


class Stream(Opaque):
    """a text stream; `parts` holds what was written (None: unknown text)"""

    def __init__(self, name):
        Opaque.__init__(self, name)
        self.parts = []

    def put(self, t):
        self.parts.append(t if isinstance(t, str) else None)

    def text(self):
        if any(p is None or isinstance(p, AStr) for p in self.parts):
            return None
        return ''.join(self.parts)

    def sink(self, I, args, sep, end):
        sep = ' ' if sep is None else sep
        end = '\n' if end is None else end
        for i, a in enumerate(args):
            if i:
                self.put(sep)
            t = I.host_str(a)
            self.put(t if isinstance(t, str) else str(t))
        self.put(end)

    def m_write(self, I, t):
        self.put(t)
        return len(t) if isinstance(t, str) and not isinstance(t, AStr) \
            else Top('length')

    def m_writelines(self, I, ts):
        it = I.iterate(ts)
        for t in (it if isinstance(it, list) else [None]):
            self.put(t)

    def m_getvalue(self, I):
        t = self.text()
        return AStr('<text>') if t is None else t

    def m_flush(self, I):
        return None

    m_close = m_flush


@model('io.StringIO', 'StringIO.StringIO')
def _stringio(I, init='', *a, **k):
    s = Stream('StringIO')
    if init:
        s.put(init)
    return s


C['sys.version_info'] = (3, 9, 10, 'final', 0)
C['sys.stderr'] = Opaque('stderr')
C['sys.stdout'] = Opaque('stdout')


def _calendar(name):
    import calendar as cal

    def f(I, *a):
        if not all(is_native(x) for x in a):
            return Top('calendar.%s' % name)
        try:
            return getattr(cal, name)(*a)
        except Exception as e:
            I.throw('ValueError', str(e))
    M['calendar.%s' % name] = f


for _n in ('monthrange', 'isleap', 'leapdays', 'weekday'):
    _calendar(_n)
C['calendar.month_name'] = ('', 'January', 'February', 'March', 'April',
                            'May', 'June', 'July', 'August', 'September',
                            'October', 'November', 'December')
for _i, _n in enumerate(('MONDAY', 'TUESDAY', 'WEDNESDAY', 'THURSDAY',
                         'FRIDAY', 'SATURDAY', 'SUNDAY')):
    C['calendar.' + _n] = _i
