"""Order domain for calendar queries.

A calendar is abstracted to ``n`` sessions (``n`` symbolic, or a small number)
whose instants are known only by their order:

    label(s) <= open(s) < m1(s) < break_start(s) < brk(s) < break_end(s)
             < m2(s) < close(s) < gap(s) <= label(s+1)

Session indices are linear forms over symbols 1 << j << k << n << H compared
lexicographically.  Nothing numeric is chosen for dates or times.
"""
import math
from functools import total_ordering

from .core import (AbsVal, Top, Ext, Mutable, ListVal, DictVal, SetVal, Rep,
                   SymSeq, IterVal, ClassVal, InstVal, FuncVal, BoundModel,
                   BoundMethod, AStr, PyExc, Undecided, AnalysisError,
                   PropVal, CMP, SWAP, is_native)
from . import stdmodels, pdconst
from .pdconst import (TD, TS, NDArr, Fill, NAT, NaTVal, NATINT, NatInt, TZ,
                      UTCZ, CBD, as_tz, DTI, D64, tpath)

MIN = 60 * 10 ** 9

LABEL, OPEN, SOPEN, M1, BS, BRK, BE, M2, SCLOSE, CLOSE, GAP, NONLAB = \
    -2, 0, 0.5, 1, 2, 3, 4, 5, 5.5, 6, 7, 8
NONDAY = 9
SLOT = {LABEL: 'label', OPEN: 'open', SOPEN: 'special open', M1: 'm1',
        BS: 'break_start', BRK: 'in break', BE: 'break_end', M2: 'm2',
        SCLOSE: 'special close', CLOSE: 'close', GAP: 'between sessions',
        NONLAB: 'non-session day', NONDAY: 'time on a non-session day'}
BREAK_SLOTS = (BS, BRK, BE, M2)


# ------------------------------------------------------------ linear forms


class Lin(AbsVal):
    """h*H + n*N + k*K + j*J + c, with 1 << J << K << N << H."""
    types = ('builtins.int', 'numpy.int64', 'numpy.integer')

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        out = []
        for c, s in zip(self.v, ('H', 'n', 'k', 'j', '')):
            if c:
                out.append(('%+d%s' % (c, s)) if s == '' or abs(c) != 1
                           else '%s%s' % ('+' if c > 0 else '-', s))
        return ''.join(out).lstrip('+') or '0'

    def __eq__(self, o):
        return isinstance(o, Lin) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def truth(self, I):
        return any(self.v)

    def to_int(self, I):
        return self

    def binop(self, I, op, other):
        o = vec(other)
        if o is not None:
            if op == '+':
                return mk([a + b for a, b in zip(self.v, o)])
            if op == '-':
                return mk([a - b for a, b in zip(self.v, o)])
            if op == '*' and isinstance(other, int):
                return mk([a * other for a in self.v])
        return NotImplemented

    def rbinop(self, I, op, other):
        o = vec(other)
        if o is not None:
            if op == '+':
                return mk([a + b for a, b in zip(self.v, o)])
            if op == '-':
                return mk([b - a for a, b in zip(self.v, o)])
            if op == '*' and isinstance(other, int):
                return mk([a * other for a in self.v])
        return NotImplemented

    def unop(self, I, op):
        if op == '-':
            return mk([-a for a in self.v])
        if op == '+':
            return self
        return Top('unop')

    def compare(self, I, op, other):
        o = vec(other)
        if o is not None and op in CMP:
            return CMP[op](self.v, tuple(o))
        if op in ('is', 'is not'):
            return NotImplemented
        return NotImplemented

    def sym_range(self, I, args):
        lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
        if len(args) > 2 and args[2] != 1:
            return Top('range step')
        if vec(lo) is None or vec(hi) is None:
            return Top('range')
        return seq_over(lo, hi, lambda i: i)

    def m_item(self, I):
        return self


def vec(x):
    if isinstance(x, bool):
        return (0, 0, 0, 0, int(x))
    if isinstance(x, int):
        return (0, 0, 0, 0, x)
    if isinstance(x, Lin):
        return x.v
    return None


def mk(v):
    v = tuple(v)
    return v[4] if not any(v[:4]) else Lin(v)


HH = mk((1, 0, 0, 0, 0))
NN = mk((0, 1, 0, 0, 0))
KK = mk((0, 0, 1, 0, 0))
JJ = mk((0, 0, 0, 1, 0))


def ladd(a, b):
    return mk([x + y for x, y in zip(vec(a), vec(b))])


def lsub(a, b):
    return mk([x - y for x, y in zip(vec(a), vec(b))])


def lcmp(a, b):
    a, b = vec(a), vec(b)
    return (a > b) - (a < b)


def seq_over(lo, hi, f):
    """Iteration over positions lo..hi-1: explicit when short."""
    d = lsub(hi, lo)
    if isinstance(d, int) and d <= 12:
        return [f(ladd(lo, i)) for i in range(max(d, 0))]
    if lcmp(d, 0) <= 0:
        return []
    return SymSeq(('sess', lo, hi), lambda I: f(ladd(lo, JJ)))


# ------------------------------------------------------ minute positions


class Pos(AbsVal):
    """Index into the minute grid: anchor(session, part) + c, where part 0 is
    the index of the session's open, 1 of m1, 2 of its break end, 3 of m2."""
    types = ('builtins.int', 'numpy.int64', 'numpy.integer')

    def __init__(self, s, part, c):
        self.s, self.part, self.c = s, part, c

    def key(self):
        return (vec(self.s), self.part, self.c)

    def __repr__(self):
        return 'idx[%s(%r)%+d]' % ('open m1 break_end m2'.split()[self.part],
                                   self.s, self.c)

    def __eq__(self, o):
        return isinstance(o, Pos) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def truth(self, I):
        return True

    def to_int(self, I):
        return self

    def shift(self, d):
        if isinstance(d, int):
            return mkpos(self.s, self.part, self.c + d)
        if isinstance(d, Lin) and d.v[0]:
            return mkpos(ladd(self.s, d), self.part, self.c)
        return None

    def binop(self, I, op, other):
        if isinstance(other, bool):
            other = int(other)
        if op == '+':
            if isinstance(other, (int, Lin)):
                r = self.shift(other)
                return Top('index + count') if r is None else r
            if isinstance(other, Count):
                return other.plus(self)
        if op == '-':
            if isinstance(other, (int, Lin)):
                r = self.shift(-other if isinstance(other, int)
                               else other.unop(None, '-'))
                return Top('index - count') if r is None else r
            if isinstance(other, Pos):
                return pos_diff(other, self)
        return NotImplemented

    def rbinop(self, I, op, other):
        if op == '+':
            return self.binop(I, '+', other)
        if op == '-' and isinstance(other, int):
            return pos_diff(self, other)
        return NotImplemented

    def unop(self, I, op):
        return Count(0, 0, ((self, -1),)) if op == '-' else self

    def compare(self, I, op, other):
        if isinstance(other, bool):
            other = int(other)
        if isinstance(other, int) and op in CMP:
            return CMP[op](self.key(), (vec(0), 0, other))
        if isinstance(other, Pos) and op in CMP:
            return CMP[op](self.key(), other.key())
        return NotImplemented


def pkey(p):
    return (vec(0), 0, p) if isinstance(p, int) else p.key()


def mkpos(s, part, c):
    if s == 0 and part == 0:
        return c
    return Pos(s, part, c)


def pos_diff(a, b):
    """number of positions from a to b (b - a)"""
    if a == 0 and not isinstance(a, bool):
        return b
    ka, kb = pkey(a), pkey(b)
    if ka[:2] == kb[:2]:
        return kb[2] - ka[2]
    return Count(a, b)


class Count(AbsVal):
    """b - a for two minute positions with different anchors."""
    types = ('builtins.int',)

    def __init__(self, a, b, extra=None):
        self.a, self.b = a, b
        self.extra = extra

    def __repr__(self):
        return '(%r - %r)' % (self.b, self.a)

    def __eq__(self, o):
        return isinstance(o, Count) and (o.a, o.b, o.extra) == \
            (self.a, self.b, self.extra)

    def __hash__(self):
        return 3

    def plus(self, p):
        if self.extra is None and p == self.a:
            return self.b
        return Top('index arithmetic')

    def to_int(self, I):
        return self

    def binop(self, I, op, other):
        if self.extra is None and isinstance(other, int) and op in '+-':
            d = other if op == '+' else -other
            b = self.b + d if isinstance(self.b, int) else self.b.shift(d)
            return pos_diff(self.a, b)
        return NotImplemented

    def rbinop(self, I, op, other):
        if op == '+' and isinstance(other, Pos):
            return self.plus(other)
        if op == '+':
            return self.binop(I, op, other)
        return NotImplemented

    def compare(self, I, op, other):
        if self.extra is None and other == 0 and op in CMP:
            ka, kb = pkey(self.a), pkey(self.b)
            return CMP[op]((kb > ka) - (kb < ka), 0)
        return NotImplemented


# ---------------------------------------------------------------- instants


GRAIN = {}
for _ns, _names in ((MIN, ('T', 'min', '1min', '1T', '60s', '60S')),
                    (10 ** 9, ('s', 'S', '1s', '1S')),
                    (10 ** 6, ('L', 'ms', '1ms', '1L')),
                    (10 ** 3, ('U', 'us', '1us', '1U')),
                    (30 * 10 ** 9, ('30s', '30S')),
                    (10 * 10 ** 9, ('10s', '10S')),
                    (15 * 10 ** 9, ('15s', '15S'))):
    for _x in _names:
        GRAIN[_x] = _ns
DAY = 24 * 60 * MIN


#: the zone whose clocks are one minute ahead of UTC: a wall-clock reading
#: mistaken for UTC is the next minute, whose place in the order is known
MINUTE_EAST = pdconst.TZ('UTC+00:01')


class T(AbsVal):
    """An instant: slot of a session plus an offset in ns.

    form: 'ts' (Timestamp, zone tz), 'ns' (int64) or 'd64'."""
    scalar = True

    def __init__(self, s, slot, off=0, form='ts', tz=UTCZ, src=None):
        self.s, self.slot, self.off = s, slot, off
        self.form, self.tz = form, tz
        self.src = src

    @property
    def types(self):
        if self.form == 'ts':
            return pdconst.DT_TYPES
        if self.form == 'ns':
            return ('numpy.int64', 'builtins.int', 'numpy.integer')
        return ('numpy.datetime64',)

    def key(self):
        slot = self.slot
        if slot == LABEL and _W[0].east:
            slot = 6.5       # midnight UTC falls after the session's close
        return (vec(self.s), slot, self.off)

    def __repr__(self):
        o = ''
        if self.off:
            o = '%+gmin' % (self.off / MIN) if self.off % MIN == 0 else \
                '%+dns' % self.off
        return '%s[%r]%s%s' % (SLOT[self.slot], self.s, o,
                               {'ts': '', 'ns': '.ns', 'd64': '.d64'}
                               [self.form])

    def __eq__(self, o):
        return isinstance(o, T) and o.key() == self.key() and \
            o.form == self.form and o.tz == self.tz

    def __hash__(self):
        return hash(self.key())

    def w(self, **kw):
        d = dict(s=self.s, slot=self.slot, off=self.off, form=self.form,
                 tz=self.tz, src=self.src)
        d.update(kw)
        return canon(T(**d))

    def truth(self, I):
        return True

    # -- Timestamp surface

    def np_isnull(self, I):
        return False

    def a_value(self, I):
        if self.form != 'ts':
            I.throw('AttributeError', 'value')
        return self.w(form='ns', tz=None)

    def a_asm8(self, I):
        return self.w(form='d64', tz=None)

    def m_to_datetime64(self, I):
        return self.a_asm8(I)

    def m_to_numpy(self, I):
        return self.a_asm8(I)

    def a_tz(self, I):
        if self.form != 'ts':
            I.throw('AttributeError', 'tz')
        return self.tz

    a_tzinfo = a_tz

    def m_tz_localize(self, I, tz, **k):
        tz = as_tz(tz)
        if self.form != 'ts':
            I.throw('AttributeError', 'tz_localize')
        if self.tz is not None and tz is not None:
            I.throw('TypeError', 'Cannot localize tz-aware Timestamp')
        if tz is None:
            if self.tz in (UTCZ, None):
                return self.w(tz=None)
            if self.tz == MINUTE_EAST:
                return self.w(off=self.off + MIN, tz=None)
            return Top('local wall time')
        if tz == UTCZ:
            return self.w(tz=UTCZ)
        why = 'UTC instant relabelled as %s' % tz
        if self.slot in (LABEL, NONLAB) and self.off == 0:
            return Midnight(self, why)
        return Shifted(self, why)

    def m_tz_convert(self, I, tz):
        tz = as_tz(tz)
        if self.tz is None:
            I.throw('TypeError', 'Cannot convert tz-naive Timestamp')
        return self.w(tz=tz) if tz is not None else self.w(tz=None)

    m_astimezone = m_tz_convert

    def m_item(self, I):
        return self

    def m_to_pydatetime(self, I, *a, **k):
        if self.form != 'ts' or self.off % 1000:
            return Top('to_pydatetime')
        return self

    def to_int(self, I):
        if self.form == 'ns':
            return self
        return Top('int(timestamp)')

    def to_timestamp(self, I, tz, unit):
        tz = as_tz(tz)
        if self.form == 'ts':
            if self.tz is None:
                return self.m_tz_localize(I, tz) if tz is not None else self
            return self.w(tz=tz) if tz is not None else self
        if self.form == 'ns' and unit not in (None, 'ns'):
            return Top('unit')
        if tz is None:
            return self.w(form='ts', tz=None)
        # an integer is taken as UTC; a naive datetime64 as local time
        if self.form == 'ns':
            return self.w(form='ts', tz=tz)
        return self.w(form='ts', tz=None).m_tz_localize(I, tz)

    def m_astype(self, I, t):
        p = tpath(t)
        if p in INT_TYPES:
            return self.w(form='ns', tz=None)
        if 'datetime64' in p or p.startswith('M8'):
            return self.w(form='d64', tz=None)
        return Top('astype')

    m_view = m_astype

    def grain(self, freq):
        """length of a frequency that divides the minute, or None; the
        slots stand for whole minutes"""
        if isinstance(freq, TD):
            ns = round(freq.td.total_seconds() * 10 ** 9)
        elif isinstance(freq, int):
            ns = freq
        else:
            ns = GRAIN.get(freq)
        if not ns or ns < 0 or MIN % ns:
            return None
        return ns

    def m_floor(self, I, freq, **k):
        g = self.grain(freq)
        return Top('floor') if g is None else self.w(off=self.off // g * g)

    def m_ceil(self, I, freq, **k):
        g = self.grain(freq)
        return Top('ceil') if g is None else \
            self.w(off=-(-self.off // g) * g)

    def m_round(self, I, freq, **k):
        g = self.grain(freq)
        if g is None or self.off % g * 2 == g:
            return Top('round')
        return self.w(off=(self.off + g // 2) // g * g)

    def m_replace(self, I, **kw):
        if 'tzinfo' in kw and self.form == 'ts':
            kw = dict(kw)
            tz = as_tz(kw.pop('tzinfo'))
            r = self.m_tz_localize(I, None)
            if isinstance(r, T) and tz is not None:
                r = r.m_tz_localize(I, tz)
            return r if not kw or not isinstance(r, T) else \
                r.m_replace(I, **kw)
        if self.form != 'ts' or not kw or \
                not set(kw) <= {'second', 'microsecond', 'nanosecond'} or \
                any(v != 0 or isinstance(v, bool) for v in kw.values()):
            return Top('replace')
        o = self.off % MIN
        parts = dict(second=o // 10 ** 9, microsecond=o % 10 ** 9 // 1000,
                     nanosecond=o % 1000)
        for k in kw:
            parts[k] = 0
        return self.w(off=self.off - o + parts['second'] * 10 ** 9 +
                      parts['microsecond'] * 1000 + parts['nanosecond'])

    def m_normalize(self, I):
        if self.tz == MINUTE_EAST:
            r = self.w(tz=UTCZ).m_normalize(I)
            return r.w(off=r.off - MIN, tz=self.tz) \
                if isinstance(r, T) else r
        if self.slot in (LABEL, NONLAB) and self.off == 0:
            return self
        if self.tz in (None, UTCZ) and not _W[0].east and \
                OPEN <= self.slot <= CLOSE and self.between():
            # sessions lying on the date of their label are calendars too
            return self.w_raw(slot=LABEL, off=0)
        return Top('normalize')

    def between(self):
        """not outside the session it is written relative to"""
        return not (self.slot == OPEN and self.off < 0 or
                    self.slot == CLOSE and self.off > 0)

    def m_isoformat(self, I):
        return AStr('<time>')

    m_strftime = m_day_name = lambda self, I, *a: AStr('<time>')

    def a_nanosecond(self, I):
        return self.off % 1000

    def a_second(self, I):
        return Top('second') if self.slot == GAP else self.off % MIN // 10**9

    def host_str(self, I):
        return '<%r>' % (self,)

    def combine(self, I, time):
        if self.slot in (LABEL, NONLAB) and self.off == 0 and \
                isinstance(time, TimeAtom):
            return Wall(self.s, time.seconds(), None, self.slot)
        return Top('combine')

    def m_date(self, I):
        if self.form == 'ts' and self.tz in (None, UTCZ) and \
                self.slot in (LABEL, NONLAB):
            return self.w(tz=None)
        return Top('date')

    # -- arithmetic

    def binop(self, I, op, other):
        if op in '+-':
            sg = 1 if op == '+' else -1
            if isinstance(other, (TD, WDelta)) and self.tz is None and \
                    self.form in ('ts', 'd64') and self.off == 0 and \
                    self.slot in (LABEL, NONLAB):
                return Wall(self.s, TExpr({}), None, self.slot).binop(
                    I, op, other)
            if isinstance(other, TD) and self.form in ('ts', 'd64'):
                ns = round(other.td.total_seconds() * 10 ** 6) * 1000
                if ns and self.slot in (LABEL, NONLAB):
                    return self.day_off(sg * ns)
                return self.w(off=self.off + sg * ns)
            if isinstance(other, int) and self.form == 'ns':
                return self.w(off=self.off + sg * other)
            if isinstance(other, float) and self.form == 'ns' and \
                    other == int(other):
                return self.w(off=self.off + sg * int(other))
        if op == '-' and isinstance(other, T) and other.form == self.form:
            if self.s == other.s:
                co = {}
                for x, k in ((self, 1), (other, -1)):
                    co[x.slot] = co.get(x.slot, 0) + k
                d = Dur({a: b for a, b in co.items() if b},
                        self.off - other.off)
                return d if self.form != 'ns' else d.num(1)
            return Top('time difference')
        if op == '-' and isinstance(other, NatInt):
            return Top('difference with NaT integer')
        if self.form == 'ns' and op in ('//', '%', '/', '*'):
            g = self.grain(other) if isinstance(other, int) else None
            if op == '%' and g:
                return self.off % g
            if op == '//' and g:
                return Units(self.w(off=self.off // g * g), g)
            return Top('ns arithmetic')
        return NotImplemented

    def day_off(self, ns):
        """a date some whole days from a label: with a session on every
        other day (as good a calendar as any) it is known which"""
        if ns % DAY or self.off:
            return Top('label arithmetic')
        d = ns // DAY + (1 if self.slot == NONLAB else 0)
        if abs(d) > 2:
            return Top('label arithmetic')
        return self.w_raw(s=ladd(self.s, d // 2),
                          slot=NONLAB if d % 2 else LABEL)

    def rbinop(self, I, op, other):
        if op == '+' and (isinstance(other, TD) or isinstance(other, int)):
            return self.binop(I, op, other)
        return NotImplemented

    def compare(self, I, op, other):
        if op in ('is', 'is not'):
            return NotImplemented
        if op not in CMP:
            return NotImplemented
        if isinstance(other, T):
            a, b = self, other
            if {a.form, b.form} == {'ns', 'ts'} or \
                    {a.form, b.form} == {'ns', 'd64'}:
                if op in ('==', '!='):
                    return op == '!='
                I.throw('TypeError', 'cannot compare Timestamp and int')
            if a.form == b.form == 'ts' or {a.form, b.form} == {'ts', 'd64'}:
                if (a.tz is None) != (b.tz is None):
                    if op in ('==', '!='):
                        return op == '!='
                    I.throw('TypeError', 'Cannot compare tz-naive and '
                            'tz-aware timestamps')
            r = tcmp(a, b)
            if r is None:
                return Top('order of instants')
            return CMP[op](r, 0)
        if isinstance(other, NatInt):
            if self.form == 'ns':
                return CMP[op](1, 0)
            return op == '!='
        if isinstance(other, NaTVal):
            return op == '!='
        if isinstance(other, (TS, pdconst.NowTS)):
            return Top('comparison with a date')
        if other is None or isinstance(other, str):
            if op in ('==', '!='):
                return op == '!='
            I.throw('TypeError', 'unorderable')
        if isinstance(other, int) and self.form == 'ns':
            if op in ('==', '!='):
                return op == '!='
            return Top('ns vs constant')
        return NotImplemented


class Units(AbsVal):
    """An instant as a count of some unit that divides the minute."""
    scalar = True
    types = ('numpy.int64', 'builtins.int', 'numpy.integer')

    def __init__(self, t, g):
        self.t, self.g = t, g

    def __repr__(self):
        return '%r//%d' % (self.t, self.g)

    def truth(self, I):
        return True

    def to_int(self, I):
        return self

    def binop(self, I, op, other):
        if op == '*' and other == self.g and isinstance(other, int):
            return self.t
        if op in '+-' and isinstance(other, int):
            n = other if op == '+' else -other
            return Units(self.t.w(off=self.t.off + n * self.g), self.g)
        return Top('ns arithmetic')

    def rbinop(self, I, op, other):
        return self.binop(I, op, other) if op in '*+' else \
            Top('ns arithmetic')

    def compare(self, I, op, other):
        if op in CMP and isinstance(other, Units) and other.g == self.g:
            return self.t.compare(I, op, other.t)
        return NotImplemented


def tcmp(a, b):
    ka, kb = a.key(), b.key()
    return (ka > kb) - (ka < kb)


class World(object):
    def __init__(self, n, breaks='all', gapless=False, east=False):
        self.n = n
        self.east = east
        self.breaks = breaks      # all | none | ('only', s) | ('except', s)
        self.gapless = gapless

    def has_break(self, s):
        if self.breaks == 'all':
            return True
        if self.breaks == 'none':
            return False
        if callable(self.breaks):
            return self.breaks(s)
        kind, x = self.breaks
        return (s == x) == (kind == 'only')

    def reps(self):
        n = self.n
        if isinstance(n, int):
            return list(range(n))
        return [0, 1, 2, ladd(JJ, 0), ladd(KK, -1), KK, ladd(KK, 1),
                ladd(KK, KK), ladd(n, -3), ladd(n, -2), ladd(n, -1)]

    def __repr__(self):
        return 'n=%r breaks=%s%s' % (self.n, self.breaks,
                                     ' gapless' if self.gapless else
                                     ' east' if self.east else '')


_W = [World(NN)]


def canon(t):
    """In a gapless world the minute after a close is the next open."""
    w = _W[0]
    if w.gapless:
        if t.slot == CLOSE and t.off >= MIN:
            return canon(t.w_raw(s=ladd(t.s, 1), slot=OPEN,
                                 off=t.off - MIN))
        if t.slot == OPEN and t.off < 0:
            return t.w_raw(s=ladd(t.s, -1), slot=CLOSE, off=t.off + MIN)
    return t


def _w_raw(self, **kw):
    d = dict(s=self.s, slot=self.slot, off=self.off, form=self.form,
             tz=self.tz, src=self.src)
    d.update(kw)
    return T(**d)


T.w_raw = _w_raw

INT_TYPES = ('numpy.int64', 'int64', 'i8', 'builtins.int', 'int', 'numpy.int')


class Shifted(AbsVal):
    """A timestamp that provably differs from the instant it came from."""
    types = pdconst.DT_TYPES

    def __init__(self, t, why):
        self.t, self.why = t, why

    def __repr__(self):
        return 'wrong instant (%r: %s)' % (self.t, self.why)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def truth(self, I):
        return True


class Midnight(Shifted):
    """Local midnight of a date: elapsed time added to it is not the wall
    clock of a day on which the clocks change."""

    def m_tz_convert(self, I, tz):
        return self

    def m_tz_localize(self, I, tz, **k):
        if as_tz(tz) is not None:
            I.throw('TypeError', 'Cannot localize tz-aware Timestamp')
        return Top('local wall time')

    def binop(self, I, op, other):
        if op in '+-' and isinstance(other, WDelta):
            r = Shifted(self.t, 'local midnight %s elapsed %r' % (op, other))
            WRONG.append(r)
            return r
        return self if op in '+-' and isinstance(other, TD) else \
            NotImplemented


# -------------------------------------------------------------- durations


class Dur(AbsVal):
    """sum(coef[slot]*time(slot)) + const ns; numeric when unit is set."""

    def __init__(self, coef, const=0, unit=None):
        self.coef, self.const, self.unit = coef, const, unit

    def __repr__(self):
        s = ' '.join('%+d*%s' % (v, SLOT[k])
                     for k, v in sorted(self.coef.items()))
        u = '' if self.unit is None else ' /%gmin' % (self.unit / MIN)
        return 'dur(%s %+gmin%s)' % (s, self.const / MIN, u)

    def __eq__(self, o):
        return isinstance(o, Dur) and (self.coef, self.const, self.unit) == \
            (o.coef, o.const, o.unit)

    def __hash__(self):
        return 9

    def num(self, unit):
        return Dur(self.coef, self.const, unit)

    def to_int(self, I):
        return self

    def _lin(self, other, sg):
        co = dict(self.coef)
        for k, v in other.coef.items():
            co[k] = co.get(k, 0) + sg * v
        return Dur({k: v for k, v in co.items() if v},
                   self.const + sg * other.const, self.unit)

    def binop(self, I, op, other):
        if isinstance(other, bool):
            other = int(other)
        if isinstance(other, NaTVal):
            return NAT
        if op in '+-':
            sg = 1 if op == '+' else -1
            if isinstance(other, Dur) and other.unit == self.unit:
                return self._lin(other, sg)
            if isinstance(other, TD) and self.unit is None:
                ns = round(other.td.total_seconds() * 10 ** 9)
                return Dur(self.coef, self.const + sg * ns)
            if isinstance(other, (int, float)) and self.unit is not None:
                return Dur(self.coef, self.const + sg * int(
                    other * self.unit), self.unit)
        if op in ('/', '//'):
            if isinstance(other, (int, float)) and self.unit is not None \
                    and other:
                return Dur(self.coef, self.const, int(self.unit * other))
            if isinstance(other, TD) and self.unit is None:
                return self.num(round(other.td.total_seconds() * 10 ** 9))
        return NotImplemented

    def rbinop(self, I, op, other):
        if op == '+':
            return self.binop(I, '+', other)
        if op == '-':
            neg = Dur({k: -v for k, v in self.coef.items()}, -self.const,
                      self.unit)
            return neg.binop(I, '+', other)
        return NotImplemented

    def unop(self, I, op):
        if op == '-':
            return Dur({k: -v for k, v in self.coef.items()}, -self.const,
                       self.unit)
        return self

    def m_total_seconds(self, I):
        return self.num(10 ** 9)

    def a_value(self, I):
        return self.num(1)

    def m_astype(self, I, t):
        p = tpath(t)
        if p in ('timedelta64[m]', 'm8[m]'):
            return self.num(MIN)
        if p in ('timedelta64[s]', 'm8[s]'):
            return self.num(10 ** 9)
        if p in INT_TYPES:
            return self if self.unit is not None else self.num(1)
        if p in ('timedelta64[ns]', 'm8[ns]'):
            return self
        if p in ('builtins.float', 'float', 'float64', 'numpy.float64'):
            return self
        return Top('astype')


# ---------------------------------------------------- wall-clock expressions


class TimeAtom(AbsVal):
    """A datetime.time whose value is not known."""
    types = ('datetime.time',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'time<%s>' % self.name

    def truth(self, I):
        return True

    def a_hour(self, I):
        return TExpr({(self, 'hour'): 1})

    def a_minute(self, I):
        return TExpr({(self, 'minute'): 1})

    def a_second(self, I):
        return TExpr({(self, 'second'): 1})

    def a_microsecond(self, I):
        return TExpr({(self, 'microsecond'): 1})

    def a_tzinfo(self, I):
        return None

    def host_str(self, I):
        return TimeStr(self)

    def m_isoformat(self, I):
        return TimeStr(self)

    def seconds(self):
        return TExpr({(self, 'hour'): 3600, (self, 'minute'): 60,
                      (self, 'second'): 1})

    def compare(self, I, op, other):
        if op in ('==', '!=', 'is', 'is not') and isinstance(other, TimeAtom):
            return (self is other) == (op in ('==', 'is'))
        return NotImplemented


class TimeStr(AStr):
    """The text of an unknown listed time."""

    def __new__(cls, atom):
        r = AStr.__new__(cls, '<%s>' % atom.name)
        r.atom = atom
        return r


class TExpr(AbsVal):
    types = ('builtins.int',)
    scalar_number = True

    def __init__(self, co, const=0):
        self.co, self.const = co, const

    def __repr__(self):
        return '+'.join('%g*%s.%s' % (v, k[0].name, k[1])
                        for k, v in self.co.items()) + '%+g' % self.const

    def binop(self, I, op, other):
        if isinstance(other, TExpr) and op in '+-':
            sg = 1 if op == '+' else -1
            co = dict(self.co)
            for k, v in other.co.items():
                co[k] = co.get(k, 0) + sg * v
            return TExpr({k: v for k, v in co.items() if v},
                         self.const + sg * other.const)
        if isinstance(other, (int, float)):
            if op == '+':
                return TExpr(self.co, self.const + other)
            if op == '-':
                return TExpr(self.co, self.const - other)
            if op == '*':
                return TExpr({k: v * other for k, v in self.co.items()},
                             self.const * other)
        return NotImplemented

    def rbinop(self, I, op, other):
        if op in '+*':
            return self.binop(I, op, other)
        return NotImplemented


class WDelta(AbsVal):
    """A timedelta in seconds over time atoms."""
    types = ('pandas.Timedelta', 'datetime.timedelta')

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'delta(%r)' % self.e

    def binop(self, I, op, other):
        if op in '+-':
            if isinstance(other, WDelta):
                return WDelta(self.e.binop(I, op, other.e))
            if isinstance(other, TD):
                return WDelta(self.e.binop(I, op, other.td.total_seconds()))
        return NotImplemented

    def rbinop(self, I, op, other):
        if op == '+':
            return self.binop(I, op, other)
        return NotImplemented

    def truth(self, I):
        return True


UNIT_S = dict(weeks=7 * 86400, days=86400, hours=3600, minutes=60, seconds=1,
              milliseconds=1e-3, microseconds=1e-6, nanoseconds=1e-9)


def timedelta_hook(I, kw):
    if not any(isinstance(v, (TExpr, TimeStr)) for v in kw.values()):
        return None
    e = TExpr({})
    for k, v in kw.items():
        if isinstance(v, TimeStr):
            return WDelta(v.atom.seconds())
        if k not in UNIT_S:
            return None
        if isinstance(v, TExpr):
            e = e.binop(I, '+', v.binop(I, '*', UNIT_S[k]))
        elif isinstance(v, (int, float)):
            e = e.binop(I, '+', v * UNIT_S[k])
        else:
            return None
    return WDelta(e)


def shift_days(I, seq, periods, freq):
    if freq == 'D' and isinstance(periods, int) and seq.cont == 'idx':
        return seq.binop(I, '+', TD(pdconst.dtm.timedelta(periods)))
    return Top('shift')


def fixed_delta(v):
    """an offset of a fixed number of days or hours as a delta"""
    if isinstance(v, pdconst.OffVal):
        if v.kind_ == 'Day':
            return TD(pdconst.dtm.timedelta(v.n))
        if v.kind_ == 'DateOffset' and v.kw and all(
                k in ('days', 'weeks', 'hours', 'minutes', 'seconds') and
                isinstance(x, int) for k, x in v.kw.items()):
            return TD(pdconst.dtm.timedelta(**v.kw) * v.n)
    return v


class Wall(AbsVal):
    """Session date + seconds expression, as wall clock in zone tz (None =
    naive).  ``utc`` set when it was relabelled/converted."""
    types = pdconst.DT_TYPES

    def __init__(self, s, e, tz=None, slotdate=LABEL):
        self.s, self.e, self.tz = s, e, tz
        self.slotdate = slotdate

    def __repr__(self):
        return 'wall(date[%r] + %r in %s)' % (self.s, self.e, self.tz)

    def __eq__(self, o):
        return isinstance(o, Wall) and repr(o) == repr(self)

    def __hash__(self):
        return 4

    def truth(self, I):
        return True

    def binop(self, I, op, other):
        if op in '+-' and isinstance(other, (WDelta, TD)) and self.tz is None:
            d = other.e if isinstance(other, WDelta) else \
                other.td.total_seconds()
            return Wall(self.s, self.e.binop(I, op, d), None,
                        self.slotdate)
        return NotImplemented

    def m_tz_localize(self, I, tz, **k):
        tz = as_tz(tz)
        if self.tz is not None and tz is not None:
            I.throw('TypeError', 'already aware')
        return Wall(self.s, self.e, tz, self.slotdate)

    def m_tz_convert(self, I, tz):
        tz = as_tz(tz)
        if self.tz is None:
            I.throw('TypeError', 'naive')
        if tz == UTCZ:
            return wall_to_t(self)
        return self


# days taken to an instant with less (or more) than their listed time of day
WRONG = []


def wall_to_t(w):
    """T for a canonical wall-clock term; its source is kept."""
    e = w.e
    atoms = {k[0] for k in e.co}
    if len(atoms) != 1:
        return Shifted(w, 'not one listed time')
    a = atoms.pop()
    want = {(a, 'hour'): 3600, (a, 'minute'): 60, (a, 'second'): 1}
    got = {k: v for k, v in e.co.items() if k[1] != 'microsecond'}
    if got != want or e.co.get((a, 'microsecond'), 1e-6) != 1e-6:
        WRONG.append(w)
        return Shifted(w, 'hours/minutes/seconds of the listed time')
    if e.const % 86400:
        return Shifted(w, 'extra time of day')
    slot = getattr(a, 'slot', None)
    if slot is None:
        return Top('unplaced time')
    if slot in BREAK_SLOTS and not _W[0].has_break(w.s):
        return NAT
    if w.slotdate == NONLAB:
        # a time of day on a day without a session
        slot = NONDAY if not _W[0].east else GAP
    return T(w.s, slot, 0, 'ts', UTCZ, src=(a, int(e.const // 86400), w.tz))


# ------------------------------------------------------------------ arrays


class Col(Mutable):
    """Storage of a session-indexed column: fn(position) with overlays."""

    def __init__(self, I, fn, owner=None):
        self.fn = fn
        self.over = {}
        self.init(I)

    def get(self, p):
        if p in self.over:
            return self.over[p]
        return self.fn(p)


def conv(I, v, form, tz):
    """value v as an element of an array of the given form"""
    if isinstance(v, T):
        if v.form == form and v.tz == tz:
            return v
        return v.w_raw(form=form, tz=tz)
    if isinstance(v, (NaTVal, NatInt)):
        return NATINT if form == 'ns' else NAT
    return v


class SeqBase(AbsVal):
    """Common behaviour of session columns and the minute grid."""
    elementwise = True

    def new(self, **kw):
        raise NotImplementedError

    def at(self, I, p):
        raise NotImplementedError

    @property
    def types(self):
        if self.cont == 'arr':
            return ('numpy.ndarray',)
        if self.cont == 'idx':
            return ('pandas.DatetimeIndex', 'pandas.Index')
        return ('pandas.Series',)

    def len(self, I):
        return self.sub(self.hi, self.lo)

    def a_size(self, I):
        return self.len(I)

    def a_shape(self, I):
        return (self.len(I),)

    def a_empty(self, I):
        return self.cmp(self.hi, self.lo) <= 0

    def truth(self, I):
        I.throw('ValueError', 'truth value of an array is ambiguous')

    # positions

    def resolve(self, I, i):
        """absolute position of index i (IndexError when outside)"""
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, T):
            return None
        if not self.is_idx(i):
            return None
        neg = self.cmp(i, 0) < 0
        p = self.add(self.hi if neg else self.lo, i)
        if p is None:
            return None
        if self.cmp(p, self.lo) < 0 or self.cmp(p, self.hi) >= 0:
            I.throw('IndexError', 'index out of bounds')
        return p

    def bound(self, I, i, default):
        """absolute position of a slice bound"""
        if i is None:
            return default
        if isinstance(i, bool) or not self.is_idx(i):
            return None
        neg = self.cmp(i, 0) < 0
        p = self.add(self.hi if neg else self.lo, i)
        if p is None:
            return None
        if self.cmp(p, self.lo) < 0:
            return self.lo
        if self.cmp(p, self.hi) > 0:
            return self.hi
        return p

    def slice(self, I, a, b):
        lo = self.bound(I, a, self.lo)
        hi = self.bound(I, b, self.hi)
        if lo is None or hi is None:
            return Top('slice bounds')
        if self.cmp(hi, lo) < 0:
            hi = lo
        return self.new(lo=lo, hi=hi)

    def as_form(self, form, tz):
        return self.new(form=form, tz=tz)

    # searching

    def search(self, I, q, side):
        """absolute insertion position or Top"""
        raise NotImplementedError

    def m_searchsorted(self, I, q, side='left', sorter=None):
        if isinstance(q, NDArr):
            out = [self.m_searchsorted(I, x, side) for x in q.items()]
            return VArr(I, out)
        if isinstance(q, ListVal):
            return VArr(I, [self.m_searchsorted(I, x, side)
                            for x in q.items])
        if side not in ('left', 'right'):
            if isinstance(side, str) and not isinstance(side, AStr):
                I.throw('ValueError', 'side')
            return Top('side')
        p = self.search(I, q, side)
        if isinstance(p, Top):
            return p
        return self.sub(p, self.lo)

    np_searchsorted = m_searchsorted

    def compatible(self, I, q):
        """query usable against this array?  (None = unknown)"""
        if not isinstance(q, T):
            return False
        if self.form == 'ns':
            return q.form == 'ns'
        if q.form == 'ns':
            return False
        if self.cont == 'arr':
            return q.form == 'd64' or (q.form == 'ts' and q.tz is None)
        if q.form == 'ts':
            return (q.tz is None) == (self.tz is None)
        return self.tz is None

    def m_get_loc(self, I, q, *a, **k):
        if isinstance(q, T) and self.compatible(I, q):
            l = self.search(I, q, 'left')
            r = self.search(I, q, 'right')
            method = a[0] if a else k.get('method')
            if isinstance(l, Top) or isinstance(r, Top):
                return Top('get_loc')
            if self.cmp(l, r) == 0:
                if method in ('ffill', 'pad'):
                    if self.cmp(l, self.lo) == 0:
                        I.throw('KeyError', q)
                    return self.sub(self.add(l, -1), self.lo)
                if method in ('bfill', 'backfill'):
                    if self.cmp(l, self.hi) == 0:
                        I.throw('KeyError', q)
                    return self.sub(l, self.lo)
                if method is not None:
                    return Top('get_loc method')
                I.throw('KeyError', q)
            return self.sub(l, self.lo)
        if q is None or isinstance(q, (NaTVal, str)):
            I.throw('KeyError', q)
        return Top('get_loc')

    def m_get_indexer(self, I, qs, method=None, **k):
        it = I.iterate(qs)
        if not isinstance(it, list):
            return Top('get_indexer')
        out = []
        for q in it:
            if not isinstance(q, T):
                return Top('get_indexer')
            if not self.compatible(I, q):
                out.append(-1)
                continue
            l = self.search(I, q, 'left')
            r = self.search(I, q, 'right')
            if isinstance(l, Top) or isinstance(r, Top):
                return Top('get_indexer')
            if self.cmp(l, r) == 0:
                if method in ('ffill', 'pad'):
                    out.append(-1 if self.cmp(l, self.lo) == 0 else
                               self.sub(self.add(l, -1), self.lo))
                elif method in ('bfill', 'backfill'):
                    out.append(-1 if self.cmp(l, self.hi) == 0 else
                               self.sub(l, self.lo))
                else:
                    out.append(-1)
            else:
                out.append(self.sub(l, self.lo))
        return VArr(I, out)

    def _slice_bounds(self, I, a, b):
        lo, hi = self.lo, self.hi
        for x in (a, b):
            if x is not None and not (isinstance(x, T) and
                                      self.compatible(I, x)):
                return None
        if a is not None:
            lo = self.search(I, a, 'left')
        if b is not None:
            hi = self.search(I, b, 'right')
        if isinstance(lo, Top) or isinstance(hi, Top):
            return None
        return lo, hi

    def m_slice_indexer(self, I, start=None, end=None, step=None, kind=None):
        b = self._slice_bounds(I, start, end)
        if b is None:
            return Top('slice_indexer')
        return slice(self.sub(b[0], self.lo), self.sub(b[1], self.lo))

    def m_slice_locs(self, I, start=None, end=None, *a, **k):
        s = self.m_slice_indexer(I, start, end)
        return s if isinstance(s, Top) else (s.start, s.stop)

    def contains(self, I, q):
        if isinstance(q, T) and self.compatible(I, q):
            l = self.search(I, q, 'left')
            r = self.search(I, q, 'right')
            if isinstance(l, Top) or isinstance(r, Top):
                return Top('contains')
            return self.cmp(l, r) != 0
        if q is None or isinstance(q, (NaTVal, str)):
            return False
        return Top('contains')

    def iter(self, I):
        raise NotImplementedError

    def a_is_monotonic_increasing(self, I):
        return True

    a_is_monotonic = a_is_unique = a_is_monotonic_increasing

    def a_tz(self, I):
        if self.cont == 'idx':
            return self.tz
        I.throw('AttributeError', 'tz')

    a_tzinfo = a_tz

    def a_values(self, I):
        if self.cont == 'idx' and self.form == 'ts' or self.cont == 'series':
            return self.new(cont='arr', form='d64' if self.form == 'ts'
                            else self.form, tz=None, index=None)
        if self.cont == 'arr':
            I.throw('AttributeError', 'values')
        return self.new(cont='arr', index=None)

    def m_to_numpy(self, I, **k):
        return self.a_values(I)

    def a_array(self, I):
        return self.new(cont='idx', index=None)

    def a_asi8(self, I):
        if self.cont != 'idx':
            I.throw('AttributeError', 'asi8')
        return self.new(cont='arr', form='ns', tz=None, index=None)

    def m_tolist(self, I):
        it = self.iter(I)
        if isinstance(it, list):
            return ListVal(I, it)
        return self.new(cont='arr')

    def m_astype(self, I, t, copy=True):
        p = tpath(t)
        if p in INT_TYPES:
            return self.new(cont='arr' if self.cont == 'idx' else self.cont,
                            form='ns', tz=None, copy=True)
        if 'datetime64' in p or p.startswith('M8'):
            return self.new(form='d64' if self.cont == 'arr' else 'ts',
                            tz=None, copy=True)
        return Top('astype %s' % p)

    def m_view(self, I, t=None):
        if t is None:
            return self.new()
        p = tpath(t)
        if p in INT_TYPES:
            return self.new(cont='arr' if self.cont == 'idx' else self.cont,
                            form='ns', tz=None)
        if 'datetime64' in p or p.startswith('M8'):
            return self.new(form='d64', tz=None)
        return Top('view')

    def m_tz_localize(self, I, tz, *a, **k):
        if self.cont == 'series' and not getattr(self, 'index', None):
            return Top('Series.tz_localize')
        tz = as_tz(tz)
        if tz is not None and self.tz is not None:
            I.throw('TypeError', 'Already tz-aware')
        return self._zone(I, tz, 'm_tz_localize')

    def m_tz_convert(self, I, tz, *a, **k):
        tz = as_tz(tz)
        if self.tz is None:
            I.throw('TypeError', 'Cannot convert tz-naive')
        return self._zone(I, tz, 'm_tz_convert')

    def _zone(self, I, tz, meth):
        raise NotImplementedError

    def m_copy(self, I, *a, **k):
        return self.new(copy=True)

    def m_normalize(self, I):
        return Top('normalize')

    def m_shift(self, I, periods=1, freq=None, **k):
        return shift_days(I, self, periods, freq)

    def to_dti(self, I, tz):
        r = self
        if self.form == 'ns' or self.form == 'd64':
            r = self.new(cont='idx', form='ts', tz=None, index=None)
            if tz is None:
                return r
            if self.form == 'ns':
                return r.new(tz=tz)
            return r.m_tz_localize(I, tz)
        r = self.new(cont='idx', index=None)
        if tz is not None:
            if r.tz is None:
                return r.m_tz_localize(I, tz)
            return r.new(tz=tz)
        return r

    def to_datetime(self, I, utc):
        r = self.to_dti(I, None)
        if utc is True and isinstance(r, SeqBase):
            return r.m_tz_localize(I, UTCZ) if r.tz is None else \
                r.new(tz=UTCZ)
        return r

    def m_min(self, I, **k):
        return self.at(I, self.resolve(I, 0))

    def m_max(self, I, **k):
        return self.at(I, self.resolve(I, -1))

    np_min, np_max = m_min, m_max

    def np_sort(self, I):
        return Top('sort') if self.form == 'obj' else self

    def m_sort_values(self, I, **k):
        return self

    m_unique = m_drop_duplicates = m_sort_index = m_sort_values

    def m_item(self, I):
        return self.at(I, self.resolve(I, 0))

    def get(self, I, key):
        """positional getitem"""
        if isinstance(key, slice):
            if key.step not in (None, 1):
                return Top('slice step')
            return self.slice(I, key.start, key.stop)
        if isinstance(key, Mask):
            return self.take_mask(I, key)
        if isinstance(key, Fill) and isinstance(key.value, bool):
            return self.take_mask(I, Mask(self, [(self.lo, self.hi)]
                                          if key.value else []))
        if isinstance(key, VArr):
            its = key.items()
            if its and all(isinstance(x, bool) for x in its):
                ln = self.len(I)
                if ln != len(its):
                    I.throw('IndexError', 'boolean index did not match')
                its = [i for i, x in enumerate(its) if x]
            out = []
            for i in its:
                p = self.resolve(I, i) if not isinstance(i, Top) else None
                out.append(Top('element') if p is None else self.at(I, p))
            return VArr(I, out, self.cont if self.cont != 'series' else 'idx',
                        self.form, self.tz)
        if isinstance(key, (NDArr, ListVal)):
            return self.get(I, VArr(I, key.items() if isinstance(key, NDArr)
                                    else key.items))
        p = self.resolve(I, key)
        if p is None:
            return Top('array element')
        return self.at(I, p)

    def take_mask(self, I, m):
        iv = m.ivs
        if not iv:
            return self.new(lo=self.lo, hi=self.lo, copy=True)
        if len(iv) == 1:
            return self.new(lo=iv[0][0], hi=iv[0][1], copy=True)
        return Top('scattered selection')

    def getitem(self, I, key):
        return self.get(I, key)

    def m_take(self, I, key, *a, **k):
        return self.get(I, key)

    def compare(self, I, op, other):
        if op in ('is', 'is not'):
            return NotImplemented
        if op not in CMP:
            return NotImplemented
        if isinstance(other, T):
            if not self.compatible(I, other):
                if op in ('==', '!='):
                    return Mask(self, [] if op == '==' else
                                [(self.lo, self.hi)])
                if self.cont == 'idx' and self.form == 'ts' and \
                        other.form == 'ts':
                    I.throw('TypeError', 'tz-naive and tz-aware')
                return Top('array comparison')
            l = self.search(I, other, 'left')
            r = self.search(I, other, 'right')
            if isinstance(l, Top) or isinstance(r, Top):
                return self.cmp_each(I, op, other)
            lo, hi = self.lo, self.hi
            iv = {'<': [(lo, l)], '<=': [(lo, r)], '>': [(r, hi)],
                  '>=': [(l, hi)], '==': [(l, r)],
                  '!=': [(lo, l), (r, hi)]}[op]
            return Mask(self, iv)
        return self.cmp_each(I, op, other)

    def cmp_each(self, I, op, other):
        return Top('array comparison')

    def m_any(self, I, **k):
        return Top('any')

    def m_all(self, I, **k):
        return Top('all')


class Mask(AbsVal):
    """Boolean array over a sequence, as a union of position intervals."""
    is_mask = True
    types = ('numpy.ndarray',)
    elementwise = True

    def __init__(self, seq, ivs):
        self.seq = seq
        out = []
        for a, b in ivs:
            if seq.cmp(b, a) <= 0:
                continue
            if out and seq.cmp(out[-1][1], a) >= 0:
                if seq.cmp(b, out[-1][1]) > 0:
                    out[-1] = (out[-1][0], b)
            else:
                out.append((a, b))
        self.ivs = out

    def __repr__(self):
        return 'Mask%r' % (self.ivs,)

    def len(self, I):
        return self.seq.len(I)

    def a_values(self, I):
        return self

    def truth(self, I):
        I.throw('ValueError', 'truth value of an array is ambiguous')

    def binop(self, I, op, other):
        if isinstance(other, Fill):
            return other.binop(I, op, self)
        if isinstance(other, Mask):
            s = self.seq
            if op == '&':
                out = []
                for a, b in self.ivs:
                    for c, d in other.ivs:
                        lo = a if s.cmp(a, c) >= 0 else c
                        hi = b if s.cmp(b, d) <= 0 else d
                        out.append((lo, hi))
                return Mask(s, [x for x in out if s.cmp(x[1], x[0]) > 0])
            if op == '|':
                import functools
                iv = sorted(self.ivs + other.ivs, key=functools.cmp_to_key(
                    lambda x, y: s.cmp(x[0], y[0])))
                return Mask(s, iv)
        if isinstance(other, SArr) and isinstance(self.seq, SArr) and \
                op in '&|^':
            return self.column(I).binop(I, op, other)
        return NotImplemented

    rbinop = iadd = binop

    def column(self, I):
        s = self.seq
        return s.new(col=Col(I, lambda p: any(
            s.cmp(a, p) <= 0 < s.cmp(b, p) for a, b in self.ivs)),
            form='obj', tz=None, cont='arr', index=None)

    def unop(self, I, op):
        if op == '~':
            out, p = [], self.seq.lo
            for a, b in self.ivs:
                out.append((p, a))
                p = b
            out.append((p, self.seq.hi))
            return Mask(self.seq, out)
        return Top('mask')

    def m_any(self, I, **k):
        return bool(self.ivs)

    def m_all(self, I, **k):
        s = self.seq
        if s.cmp(s.hi, s.lo) <= 0:
            return True
        return len(self.ivs) == 1 and s.cmp(self.ivs[0][0], s.lo) == 0 and \
            s.cmp(self.ivs[0][1], s.hi) == 0

    def m_sum(self, I, **k):
        if not self.ivs:
            return 0
        if len(self.ivs) == 1:
            return self.seq.sub(self.ivs[0][1], self.ivs[0][0])
        return Top('sum of mask')

    np_count_nonzero = m_sum

    def m_argmax(self, I, **k):
        if not self.ivs:
            return 0
        return self.seq.sub(self.ivs[0][0], self.seq.lo)

    def np_flatnonzero(self, I):
        if not self.ivs:
            return VArr(I, [])
        if len(self.ivs) == 1:
            a, b = self.ivs[0]
            return IdxRange(self.seq, a, b)
        return Top('flatnonzero')

    def m_nonzero(self, I):
        return (self.np_flatnonzero(I),)

    def m_astype(self, I, t):
        return Top('mask astype')


class IdxRange(AbsVal):
    """The positions a..b-1 of a sequence as an integer array."""
    types = ('numpy.ndarray',)
    elementwise = True

    def __init__(self, seq, a, b):
        self.seq, self.a, self.b = seq, a, b

    def len(self, I):
        return self.seq.sub(self.b, self.a)

    a_size = len

    def getitem(self, I, i):
        s = self.seq
        if not s.is_idx(i):
            return Top('positions')
        p = s.add(self.b if s.cmp(i, 0) < 0 else self.a, i)
        if p is None:
            return Top('positions')
        if s.cmp(p, self.a) < 0 or s.cmp(p, self.b) >= 0:
            I.throw('IndexError', 'index out of bounds')
        return s.sub(p, s.lo)


class SArr(SeqBase):
    """Column indexed by session position."""

    def __init__(self, I, col, lo, hi, form, tz, cont, index=None, bad=None):
        self.I0 = I
        self.col, self.lo, self.hi = col, lo, hi
        self.form, self.tz, self.cont = form, tz, cont
        self.index = index       # SArr of labels for a Series
        self.sorted = True

    def __repr__(self):
        return 'SArr[%r:%r %s %s]' % (self.lo, self.hi, self.form, self.cont)

    add = staticmethod(lambda a, b: ladd(a, b) if vec(b) is not None
                       and vec(a) is not None else None)
    sub = staticmethod(lsub)
    cmp = staticmethod(lcmp)

    @staticmethod
    def is_idx(i):
        return vec(i) is not None

    def new(self, **kw):
        copy = kw.pop('copy', False)
        d = dict(col=self.col, lo=self.lo, hi=self.hi, form=self.form,
                 tz=self.tz, cont=self.cont, index=self.index)
        d.update(kw)
        if copy:
            c = Col(self.I0, d['col'].fn)
            c.over = dict(d['col'].over)
            d['col'] = c
        if d['index'] is not None and ('lo' in kw or 'hi' in kw):
            ix = d['index']
            d['index'] = ix.new(lo=ladd(d['lo'], lsub(ix.lo, self.lo)),
                                hi=ladd(d['hi'], lsub(ix.lo, self.lo)))
        return SArr(self.I0, **d)

    def at(self, I, p):
        return conv(I, self.col.get(p), self.form, self.tz)

    def mapped(self, I, f, **kw):
        """new column with f applied elementwise"""
        return self.new(col=Col(I, lambda p: f(self.at(I, p))), **kw)

    def np_pick(self, I, other, pick):
        if isinstance(other, SArr):
            if lcmp(other.lo, self.lo) or lcmp(other.hi, self.hi):
                return Top('elementwise extreme')
            return self.new(col=Col(I, lambda p: pick(
                I, self.at(I, p), other.at(I, p))), index=None)
        if getattr(other, 'elementwise', False):
            return Top('elementwise extreme')
        return self.mapped(I, lambda v: pick(I, v, other))

    def iter(self, I):
        return seq_over(self.lo, self.hi, lambda p: self.at(I, p))

    def m_searchsorted(self, I, q, side='left', sorter=None):
        return SeqBase.m_searchsorted(self, I, q, side, sorter)

    def search(self, I, q, side):
        if not isinstance(q, T):
            return Top('search key')
        if not self.compatible(I, q):
            return Top('search key form')
        s = q.s
        if lcmp(s, self.lo) < 0:
            return self.lo
        if lcmp(s, self.hi) >= 0:
            return self.hi
        v = self.at(I, s)
        if not isinstance(v, T) or v.s != s:
            return Top('unordered column')
        c = tcmp(v, q)
        before = c < 0 or (c == 0 and side == 'right')
        return ladd(s, 1) if before else s

    def _zone(self, I, tz, meth):
        def f(v):
            if isinstance(v, (NaTVal, NatInt)):
                return NAT
            if isinstance(v, (T, Wall, Midnight)):
                return getattr(v, meth)(I, tz)
            return v if isinstance(v, (Top, Shifted)) else Top('zone')
        r = self.new(col=Col(I, lambda p: f(self.at(I, p))), tz=tz)
        # the zone tag of elements follows the array except for wall terms
        return r

    def m_append(self, I, other):
        parts = [self]
        its = other.items if isinstance(other, ListVal) else [other]
        for x in its:
            if isinstance(x, VArr) and not x.items():
                continue
            if not isinstance(x, SArr):
                return Top('append')
            parts.append(x)
        return concat_cols(I, parts)

    def m_map(self, I, f):
        return Top('map over column')

    m_apply = m_map

    # writes

    def iadd(self, I, op, other):
        if self.cont != 'idx':
            I.write(self.col, 'in-place array operation')
            if self.col.owner != I.phase:
                I.soften('in-place array operation')
        return self.binop(I, op, other)

    def setitem(self, I, key, value):
        I.write(self.col, 'array item assignment')
        if self.cont == 'idx':
            I.throw('TypeError', 'Index does not support mutable operations')
        if isinstance(key, Mask) and key.ivs == [(self.lo, self.hi)]:
            key = slice(None)
        idxs = None
        if isinstance(key, NDArr):
            idxs = key.items()
        elif isinstance(key, ListVal):
            idxs = key.items
        elif vec(key) is not None:
            idxs = [key]
        if idxs is None or any(vec(i) is None for i in idxs):
            I.soften('write to unknown positions')
            self.col.fn = lambda p: Top('weak update')
            self.col.over = {}
            return
        if isinstance(value, NDArr):
            vals = value.items()
        elif isinstance(value, ListVal):
            vals = value.items
        else:
            vals = [value] * len(idxs)
        if len(vals) != len(idxs):
            if len(vals) == 1:
                vals = vals * len(idxs)
            else:
                I.throw('ValueError', 'shape mismatch')
        for i, v in zip(idxs, vals):
            p = self.resolve(I, i)
            if isinstance(v, NatInt):
                v = NAT
            self.col.over[p] = v

    # Series / elementwise

    def getitem(self, I, key):
        if self.cont == 'series':
            if isinstance(key, T):
                return self.label(I, key)
            if isinstance(key, slice) and (isinstance(key.start, T) or
                                           isinstance(key.stop, T)):
                return self.label_slice(I, key.start, key.stop)
            if isinstance(key, SArr) or isinstance(key, Mask):
                return self.get(I, key if isinstance(key, Mask)
                                else key.as_mask(I))
        if isinstance(key, SArr):
            return self.get(I, key.as_mask(I))
        return self.get(I, key)

    def as_mask(self, I):
        return Top('computed mask')

    def label(self, I, key):
        if self.index is None:
            return Top('label lookup')
        i = self.index.m_get_loc(I, key)
        return Top('label lookup') if isinstance(i, Top) else self.get(I, i)

    def label_slice(self, I, a, b):
        if self.index is None:
            return Top('label slice')
        s = self.index.m_slice_indexer(I, a, b)
        return s if isinstance(s, Top) else self.slice(I, s.start, s.stop)

    def a_index(self, I):
        if self.index is None:
            I.throw('AttributeError', 'index')
        return self.index

    def a_loc(self, I):
        return Loc(self, 'loc')

    def a_at(self, I):
        return Loc(self, 'at')

    def a_iloc(self, I):
        return Loc(self, 'iloc')

    def a_iat(self, I):
        return Loc(self, 'iloc')

    def a_dt(self, I):
        if self.cont != 'series':
            I.throw('AttributeError', 'dt')
        return DtAcc(self)

    def binop(self, I, op, other):
        if isinstance(other, Mask) and op in '&|^' and \
                isinstance(other.seq, SArr):
            other = other.column(I)
        if isinstance(other, SArr):
            if lcmp(lsub(self.hi, self.lo), lsub(other.hi, other.lo)):
                return Top('misaligned columns')
            off = lsub(other.lo, self.lo)
            return self.new(col=Col(I, lambda p: pdop(
                I, op, self.at(I, p), other.at(I, ladd(p, off)))),
                form='obj', tz=None)
        other = fixed_delta(other)
        if isinstance(other, (TD, WDelta, Dur, int, float, T)):
            def f(v):
                if isinstance(v, T) and v.slot == LABEL and \
                        isinstance(other, (WDelta, TD)) and v.tz is None \
                        and v.off == 0:
                    v = Wall(v.s, TExpr({}), None, v.slot)
                return pdop(I, op, v, other)
            keep = isinstance(other, (TD, WDelta)) or \
                (self.form == 'ns' and isinstance(other, int))
            return self.mapped(I, f, form=self.form if keep else 'obj',
                               tz=self.tz if keep else None)
        return NotImplemented

    def rbinop(self, I, op, other):
        if op == '+' and isinstance(other, (TD, WDelta, int, float, Dur)):
            return self.binop(I, op, other)
        if op in '*-' and isinstance(other, (int, float)):
            return self.mapped(I, lambda v: pdop(I, op, other, v),
                               form='obj')
        return NotImplemented

    def unop(self, I, op):
        if op == '~':
            return self.mapped(I, lambda v: (not v) if isinstance(v, bool)
                               else I.unop(op, v))
        return self.mapped(I, lambda v: I.unop(op, v))

    def cmp_each(self, I, op, other):
        if isinstance(other, SArr):
            if lcmp(lsub(self.hi, self.lo), lsub(other.hi, other.lo)):
                return Top('misaligned columns')
            off = lsub(other.lo, self.lo)
            return self.new(col=Col(I, lambda p: I.compare(
                op, self.at(I, p), other.at(I, ladd(p, off)))), form='obj',
                tz=None)
        if isinstance(other, Top):
            return other
        return self.mapped(I, lambda v: I.compare(op, v, other), form='obj',
                           tz=None)

    def reps(self):
        n = lsub(self.hi, self.lo)
        if isinstance(n, int):
            return [ladd(self.lo, i) for i in range(n)]
        ps = [p for p in _W[0].reps() if lcmp(p, self.lo) >= 0 and
              lcmp(p, self.hi) < 0]
        ps += [p for p in self.col.over if p not in ps]
        for x in (self.lo, ladd(self.hi, -1)):
            if x not in ps:
                ps.append(x)
        return ps

    def m_any(self, I, **k):
        rs = [self.at(I, p) for p in self.reps()]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else Top('any')

    def m_all(self, I, **k):
        rs = [self.at(I, p) for p in self.reps()]
        if any(r is False for r in rs):
            return False
        return True if all(r is True for r in rs) else Top('all')

    def m_sum(self, I, **k):
        return SumVal(self)

    def np_isnull(self, I):
        return self.mapped(I, lambda v: isinstance(v, (NaTVal, NatInt))
                           if not isinstance(v, Top) else v, form='obj',
                           tz=None)

    def m_isnull(self, I):
        return self.np_isnull(I)

    m_isna = m_isnull

    def m_notnull(self, I):
        return self.np_isnull(I).unop(I, '~')

    m_notna = m_notnull

    def m_fillna(self, I, value=None, **k):
        return self.mapped(I, lambda v: value if isinstance(v, NaTVal)
                           else v)

    def m_astype(self, I, t, copy=True):
        p = tpath(t)
        if self.form == 'obj':
            def f(v):
                if isinstance(v, Dur):
                    return v.m_astype(I, t)
                if isinstance(v, bool) and (p in INT_TYPES or
                                            'float' in p):
                    return int(v)
                if isinstance(v, TD) and p in ('timedelta64[m]', 'm8[m]'):
                    return Dur({}, round(v.td.total_seconds() * 10 ** 9),
                               MIN)
                if isinstance(v, (int, float)) and (p in INT_TYPES or
                                                    'float' in p):
                    return v
                return v if isinstance(v, (Top, NaTVal)) else Top('astype')
            return self.mapped(I, f)
        return SeqBase.m_astype(self, I, t)

    def a_str(self, I):
        return Top('str')

    def np_where(self, I, a, b):
        def f(p):
            c = self.at(I, p)
            x = a.at(I, p) if isinstance(a, SArr) else a
            y = b.at(I, p) if isinstance(b, SArr) else b
            return x if c is True else y if c is False else Top('where')
        return self.new(col=Col(I, f), form='obj', tz=None)

    def m_where(self, I, cond, other=None, *a, **k):
        if not isinstance(cond, (SArr, Mask)):
            return Top('where')
        if isinstance(cond, Mask):
            cond = cond.column(I)
            if isinstance(cond, Top):
                return cond
        if lcmp(cond.lo, self.lo) or lcmp(cond.hi, self.hi):
            return Top('where')

        def f(p):
            c = cond.at(I, p)
            v = (NAT if other is None else other.at(I, p)
                 if isinstance(other, SArr) else other)
            return self.at(I, p) if c is True else v if c is False \
                else Top('where')
        return self.new(col=Col(I, f))

    def m_mask(self, I, cond, other=None, *a, **k):
        if not isinstance(cond, (SArr, Mask)):
            return Top('mask')
        return self.m_where(I, I.unop('~', cond), other)

    def m_put(self, I, ind, v, *a, **k):
        self.setitem(I, ind, v)

    def m_fill(self, I, v):
        self.setitem(I, slice(None), v)

    def m_to_series(self, I, *a, **k):
        return self.new(cont='series', index=self)

    def m_union(self, I, other, *a, **k):
        return Top('union')

    def m_cumsum(self, I, *a, **k):
        return Top('cumsum')

    def m_difference(self, I, o, *a, **k):
        it = I.iterate(o)
        if isinstance(it, list) and not it:
            return self
        return Top('difference')

    def m_isin(self, I, o):
        return Top('isin')


def pdop(I, op, a, b):
    for x in (a, b):
        if isinstance(x, NaTVal):
            return NAT
        if isinstance(x, Top):
            return x
    if isinstance(a, bool) and isinstance(b, bool) and op in '&|^':
        return a & b if op == '&' else a | b if op == '|' else a ^ b
    if isinstance(a, NatInt) or isinstance(b, NatInt):
        return Top('arithmetic on NaT integer')
    return I.binop(op, a, b)


def concat_cols(I, parts):
    """Concatenation keeps positions: piece i starts after the others."""
    parts = [p for p in parts if lcmp(p.hi, p.lo) > 0] or parts[:1]
    if len(parts) == 1:
        return parts[0]
    tz, form, cont = parts[0].tz, parts[0].form, parts[0].cont
    if any(p.tz != tz or p.form != form for p in parts):
        return Top('append of mixed zones')
    cum = [0]
    for p in parts:
        cum.append(ladd(cum[-1], lsub(p.hi, p.lo)))

    def fn(pos):
        for p, a, b in zip(parts, cum, cum[1:]):
            if lcmp(pos, a) >= 0 and lcmp(pos, b) < 0:
                return p.at(I, ladd(p.lo, lsub(pos, a)))
        return Top('outside')
    return SArr(I, Col(I, fn), 0, cum[-1], form, tz, cont)


class SumVal(AbsVal):
    types = ('builtins.int', 'builtins.float')

    def __init__(self, arr):
        self.arr = arr

    def __repr__(self):
        return 'sum over sessions [%r:%r)' % (self.arr.lo, self.arr.hi)

    def to_int(self, I):
        return self

    def m_item(self, I):
        return self

    def m_astype(self, I, t):
        return self


class DtAcc(AbsVal):
    def __init__(self, s):
        self.s = s

    def m_tz_localize(self, I, tz, **k):
        tz = as_tz(tz)
        if tz is not None and self.s.tz is not None:
            I.throw('TypeError', 'Already tz-aware')
        return self.s._zone(I, tz, 'm_tz_localize')

    def m_tz_convert(self, I, tz):
        if self.s.tz is None:
            I.throw('TypeError', 'naive')
        return self.s._zone(I, as_tz(tz), 'm_tz_convert')

    def m_total_seconds(self, I):
        def f(v):
            if isinstance(v, TD):
                return v.td.total_seconds()
            return v.m_total_seconds(I) if isinstance(v, Dur) else v
        return self.s.mapped(I, f)


class Loc(AbsVal):
    def __init__(self, obj, kind):
        self.obj, self.k = obj, kind

    def getitem(self, I, key):
        o = self.obj
        if isinstance(o, FrameVal):
            return o.locate(I, self.k, key)
        if isinstance(o, RowVal):
            return o.locate(I, key)
        if self.k == 'iloc':
            return o.get(I, key)
        if isinstance(key, slice):
            if not all(x is None or isinstance(x, T)
                       for x in (key.start, key.stop)):
                return Top('loc slice')
            return o.label_slice(I, key.start, key.stop)
        if isinstance(key, T):
            return o.label(I, key)
        if isinstance(key, (Mask, NDArr)):
            return o.getitem(I, key)
        return Top('loc')

    def setitem(self, I, key, value):
        I.soften('write through loc')

    def call(self, I, args, kw):
        return self


class FrameVal(Mutable):
    types = ('pandas.DataFrame',)

    def __init__(self, I, index, cols):
        self.index, self.cols = index, cols
        self.init(I)

    def __repr__(self):
        return 'Frame(%s)' % list(self.cols)

    def getattr(self, I, name):
        if name in self.cols:
            return self.cols[name]
        return AbsVal.getattr(self, I, name)

    def a_index(self, I):
        return self.index

    def a_columns(self, I):
        return ListVal(I, list(self.cols))

    def a_loc(self, I):
        return Loc(self, 'loc')

    def a_at(self, I):
        return Loc(self, 'at')

    def a_iloc(self, I):
        return Loc(self, 'iloc')

    def a_shape(self, I):
        return (self.index.len(I), len(self.cols))

    def len(self, I):
        return self.index.len(I)

    def m_copy(self, I, **k):
        return FrameVal(I, self.index, {k: v.m_copy(I)
                                        for k, v in self.cols.items()})

    def setitem(self, I, key, v):
        I.write(self, 'column assignment')
        if isinstance(key, str) and isinstance(v, SArr):
            self.cols[key] = v.new(cont='series', index=self.index)
        else:
            I.soften('column write')

    def getitem(self, I, key):
        if isinstance(key, str) and not isinstance(key, AStr):
            if key in self.cols:
                return self.cols[key]
            I.throw('KeyError', key)
        if isinstance(key, ListVal):
            return self._cols(I, key)
        if isinstance(key, slice):
            return self.locate(I, 'loc' if isinstance(key.start, T) or
                               isinstance(key.stop, T) else 'iloc', key)
        return Top('frame item')

    def _cols(self, I, key):
        out = {}
        for c in key.items:
            if c not in self.cols:
                I.throw('KeyError', c)
            out[c] = self.cols[c]
        return FrameVal(I, self.index, out)

    def locate(self, I, kind, key):
        if not isinstance(key, tuple):
            key = (key,)
        row = key[0]
        if kind == 'iloc':
            if len(key) == 2:
                if isinstance(key[1], int):
                    try:
                        return list(self.cols.values())[key[1]].get(I, row)
                    except IndexError:
                        I.throw('IndexError', 'column')
                return Top('iloc')
            if isinstance(row, slice):
                return FrameVal(I, self.index.get(I, row),
                                {k: v.get(I, row)
                                 for k, v in self.cols.items()})
            return RowVal(I, {k: v.get(I, row)
                              for k, v in self.cols.items()})
        cols = self.cols
        one = None
        if len(key) == 2:
            c = key[1]
            if isinstance(c, str) and not isinstance(c, AStr):
                if c not in cols:
                    I.throw('KeyError', c)
                one = cols[c]
            elif isinstance(c, ListVal):
                for x in c.items:
                    if x not in cols:
                        I.throw('KeyError', x)
                cols = {x: cols[x] for x in c.items}
            elif isinstance(c, slice) and c == slice(None):
                pass
            else:
                return Top('loc columns')

        def pick(s):
            if isinstance(row, slice):
                if not all(x is None or isinstance(x, T)
                           for x in (row.start, row.stop)):
                    return Top('loc rows')
                return s.label_slice(I, row.start, row.stop)
            if isinstance(row, T):
                return s.label(I, row)
            if isinstance(row, Mask):
                return s.get(I, row)
            return Top('loc rows')
        if one is not None:
            return pick(one)
        out = {k: pick(v) for k, v in cols.items()}
        if isinstance(row, slice):
            f = next(iter(out.values()))
            if isinstance(f, Top):
                return f
            return FrameVal(I, f.index, out)
        return RowVal(I, out)


class RowVal(AbsVal):
    types = ('pandas.Series',)

    def __init__(self, I, d):
        self.d = d

    def getattr(self, I, name):
        if name in self.d:
            return self.d[name]
        if name in ('loc', 'at'):
            return Loc(self, name)
        if name == 'values':
            return NDArr(I, list(self.d.values()))
        return AbsVal.getattr(self, I, name)

    def locate(self, I, key):
        return self.getitem(I, key)

    def getitem(self, I, key):
        if isinstance(key, str):
            if key in self.d:
                return self.d[key]
            I.throw('KeyError', key)
        if isinstance(key, ListVal):
            for x in key.items:
                if x not in self.d:
                    I.throw('KeyError', x)
            return RowVal(I, {x: self.d[x] for x in key.items})
        return Top('row item')

    def iter(self, I):
        return list(self.d.values())


# -------------------------------------------------------- explicit vectors


class VArr(NDArr):
    """A short explicit array/index/series of abstract elements."""

    def __init__(self, I, data, cont='arr', form=None, tz=None, index=None):
        NDArr.__init__(self, I, data)
        self.cont, self.form, self.tz = cont, form, tz
        self.index = index

    @property
    def types(self):
        return {'arr': ('numpy.ndarray',),
                'idx': ('pandas.DatetimeIndex', 'pandas.Index'),
                'series': ('pandas.Series',)}[self.cont]

    def __repr__(self):
        return 'V%r' % (self.items(),)

    def like(self, I, data, **kw):
        d = dict(cont=self.cont, form=self.form, tz=self.tz,
                 index=self.index)
        d.update(kw)
        return VArr(I, data, **d)

    def a_values(self, I):
        v = VArr(I, [x.w_raw(form='d64', tz=None) if isinstance(x, T)
                     and x.form == 'ts' else x for x in self.items()],
                 'arr')
        v.buf.owner = self.buf.owner     # the same storage
        return v

    def iadd(self, I, op, other):
        if self.cont == 'idx':
            return self.binop(I, op, other)
        return NDArr.iadd(self, I, op, other)

    def np_pick(self, I, other, pick):
        if isinstance(other, NDArr):
            o = other.items()
        elif getattr(other, 'elementwise', False):
            return Top('elementwise extreme')
        else:
            o = [other] * len(self.items())
        if len(o) != len(self.items()):
            return Top('elementwise extreme')
        return VArr(I, [pick(I, x, y) for x, y in zip(self.items(), o)],
                    'arr', self.form if self.form != 'ts' else None)

    def m_to_numpy(self, I, **k):
        return self.a_values(I)

    def a_asi8(self, I):
        return VArr(I, [conv(I, x, 'ns', None) for x in self.items()])

    def a_index(self, I):
        return self.index if self.index is not None else Top('index')

    def a_tz(self, I):
        return self.tz

    def a_is_monotonic_increasing(self, I):
        it = self.items()
        for a, b in zip(it, it[1:]):
            r = I.compare('<=', a, b)
            if r is False:
                return False
            if r is not True:
                return Top('monotonic')
        return True

    a_is_monotonic = a_is_monotonic_increasing

    def a_empty(self, I):
        return not self.items()

    def a_dt(self, I):
        return VDt(self)

    def m_tz_localize(self, I, tz, **k):
        tz = as_tz(tz)
        out = [x if isinstance(x, NaTVal) else x.m_tz_localize(I, tz)
               if isinstance(x, (T, Wall, Midnight)) else Top()
               for x in self.items()]
        return self.like(I, out, tz=tz)

    def m_tz_convert(self, I, tz, **k):
        tz = as_tz(tz)
        out = [x if isinstance(x, NaTVal) else x.m_tz_convert(I, tz)
               if isinstance(x, (T, Wall, Midnight)) else Top()
               for x in self.items()]
        return self.like(I, out, tz=tz)

    def m_shift(self, I, periods=1, freq=None, **k):
        return shift_days(I, self, periods, freq)

    def m_normalize(self, I):
        return self.like(I, [x.m_normalize(I) if isinstance(x, T) else Top()
                             for x in self.items()])

    def to_dti(self, I, tz):
        its = self.items()
        out = []
        for x in its:
            if isinstance(x, T):
                out.append(x.to_timestamp(I, tz, None))
            elif isinstance(x, Wall):
                out.append(x if tz is None else x.m_tz_localize(I, tz))
            elif isinstance(x, (NaTVal, Shifted)):
                out.append(x)
            else:
                return Top('DatetimeIndex')
        z = tz
        if z is None:
            zs = {x.tz for x in out if isinstance(x, (T, Wall))}
            if len(zs) > 1:
                return Top('mixed zones')
            z = zs.pop() if zs else self.tz
        return VArr(I, out, 'idx', 'ts', z)

    def to_datetime(self, I, utc):
        r = self.to_dti(I, None)
        if utc is True and isinstance(r, VArr):
            return r.m_tz_localize(I, UTCZ) if r.tz is None else \
                r.m_tz_convert(I, UTCZ)
        return r

    def m_map(self, I, f):
        whole = self if self.cont == 'idx' else VArr(
            I, self.items(), 'idx', self.form, self.tz)
        try:
            r = I.call(f, [whole])
            if isinstance(r, (VArr, SeqBase)):
                return r if self.cont == 'idx' or isinstance(r, SeqBase) \
                    else self.like(I, r.items(), tz=r.tz)
            if isinstance(r, Top):
                return r
        except PyExc:
            pass
        out = [I.call(f, [x]) for x in self.items()]
        return self.like(I, out)

    m_apply = m_map

    def m_append(self, I, other):
        if isinstance(other, ListVal):
            out = list(self.items())
            for o in other.items:
                if not isinstance(o, VArr):
                    return Top('append')
                out += o.items()
            return self.like(I, out)
        if isinstance(other, VArr):
            idx = None
            if self.index is not None and other.index is not None:
                idx = self.index.like(I, self.index.items() +
                                      other.index.items())
            return self.like(I, self.items() + other.items(), index=idx)
        return Top('append')

    def m_sort_index(self, I, **k):
        if self.index is None:
            return Top('sort_index')
        return self._perm(I, self.index.items())

    def m_sort_values(self, I, **k):
        return self._perm(I, self.items())

    def _perm(self, I, keys):
        order = I.sorted([(k, i) for i, k in enumerate(keys)],
                         BoundModel(Top(), 'k', lambda I, x: x[0]), False)
        if order is None:
            return Top('sort')
        idx = [i for _, i in order]
        return self.pick(I, idx)

    def pick(self, I, idx):
        its = self.items()
        ix = None
        if self.index is not None:
            j = self.index.items()
            ix = self.index.like(I, [j[i] for i in idx])
        return self.like(I, [its[i] for i in idx], index=ix)

    def m_drop_duplicates(self, I, **k):
        seen, idx = [], []
        for i, x in enumerate(self.items()):
            if x not in seen:
                seen.append(x)
                idx.append(i)
        return self.pick(I, idx)

    m_unique = m_drop_duplicates

    def getitem(self, I, key):
        if isinstance(key, int):
            return NDArr.getitem(self, I, key)
        m = self._mask(key)
        if m is None:
            if isinstance(key, NDArr) and \
                    any(isinstance(x, Top) for x in key.items()):
                return Top('unknown selection')
            if isinstance(key, slice) and self.index is not None and all(
                    x is None or isinstance(x, T)
                    for x in (key.start, key.stop)):
                sel = []
                for i, l in enumerate(self.index.items()):
                    ok = True
                    for b, op in ((key.start, '>='), (key.stop, '<=')):
                        if b is None:
                            continue
                        r = I.compare(op, l, b)
                        if r is not True and r is not False:
                            return Top('label slice')
                        ok = ok and r
                    if ok:
                        sel.append(i)
                return self.pick(I, sel)
            return Top('vector item')
        if m == 'bad':
            I.throw('IndexError', 'boolean index did not match')
        return self.pick(I, m)

    def a_loc(self, I):
        return VLoc(self)

    a_iloc = a_loc

    def m_between(self, I, a, b):
        return NDArr(I, [I.binop('&', I.compare('>=', x, a),
                                 I.compare('<=', x, b))
                         for x in self.items()])

    def m_isnull(self, I):
        return NDArr(I, [isinstance(x, NaTVal) for x in self.items()])

    def m_tolist(self, I):
        return ListVal(I, self.items())

    m_to_list = m_tolist

    def m_copy(self, I, *a, **k):
        return self.like(I, self.items())

    def m_items(self, I):
        if self.index is None:
            return Top('items')
        return IterVal(list(zip(self.index.items(), self.items())))

    m_iteritems = m_items

    def m_union(self, I, other, **k):
        if isinstance(other, VArr):
            return self.like(I, self.items() + [
                x for x in other.items() if x not in self.items()]) \
                .m_sort_values(I)
        return Top('union')

    def m_astype(self, I, t, copy=True):
        p = tpath(t)
        if p in INT_TYPES and all(isinstance(x, (T, NaTVal))
                                  for x in self.items()):
            return VArr(I, [conv(I, x, 'ns', None) for x in self.items()])
        return NDArr.m_astype(self, I, t)

    def binop(self, I, op, other):
        other = fixed_delta(other)

        def lab(v):
            if isinstance(v, T) and v.slot in (LABEL, NONLAB) and \
                    isinstance(other, (WDelta, TD)) and v.tz is None:
                return Wall(v.s, TExpr({}), None, v.slot)
            return v
        if isinstance(other, (WDelta, TD)):
            return self.like(I, [pdop(I, op, lab(x), other)
                                 for x in self.items()])
        r = NDArr.binop(self, I, op, other)
        return VArr(I, r.items()) if isinstance(r, NDArr) else r

    def compare(self, I, op, other):
        r = NDArr.compare(self, I, op, other)
        return VArr(I, r.items()) if isinstance(r, NDArr) else r

    def m_min(self, I, **k):
        return NDArr.m_min(self, I)


class VLoc(AbsVal):
    def __init__(self, v):
        self.v = v

    def getitem(self, I, key):
        return self.v.getitem(I, key)


class VDt(AbsVal):
    def __init__(self, v):
        self.v = v

    def m_tz_localize(self, I, tz, **k):
        return self.v.m_tz_localize(I, tz)

    def m_tz_convert(self, I, tz):
        return self.v.m_tz_convert(I, tz)


# ---------------------------------------------------------------- minutes


class MArr(SeqBase):
    """The minute grid, or a contiguous part of it."""
    index = None

    def __init__(self, I, lo, hi, form, tz, cont):
        self.I0 = I
        self.owner = I.phase
        self.lo, self.hi, self.form, self.tz, self.cont = \
            lo, hi, form, tz, cont

    def iadd(self, I, op, other):
        if self.cont != 'idx':
            I.write(self, 'in-place array operation')
        return self.binop(I, op, other)

    def setitem(self, I, key, value):
        I.write(self, 'array item assignment')
        I.soften('write to minutes')

    def __repr__(self):
        return 'minutes[%r:%r]' % (self.lo, self.hi)

    def new(self, **kw):
        kw.pop('copy', None)
        kw.pop('index', None)
        d = dict(lo=self.lo, hi=self.hi, form=self.form, tz=self.tz,
                 cont=self.cont)
        d.update(kw)
        return MArr(self.I0, **d)

    @staticmethod
    def add(a, b):
        if isinstance(b, Pos) and isinstance(a, int):
            a, b = b, a
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if isinstance(a, int) and isinstance(b, Lin):
            return Pos(ladd(0, b), 0, a) if b.v[0] else None
        if isinstance(a, Pos):
            if isinstance(b, (int, Lin)):
                return a.shift(b)
            if isinstance(b, Pos) and a == b:
                return None
            if isinstance(b, Pos) and isinstance(b.s, Lin) and b.s.v[0]:
                # a far out-of-range index stays far out of range
                return Pos(ladd(b.s, a.s), b.part, b.c)
        if isinstance(b, Count):
            r = b.plus(a)
            return None if isinstance(r, Top) else r
        return None

    @staticmethod
    def sub(a, b):
        return pos_diff(b, a)

    @staticmethod
    def cmp(a, b):
        if isinstance(a, Count):
            ka = (pkey(a.b) > pkey(a.a)) - (pkey(a.b) < pkey(a.a))
            return ka if b == 0 else 0
        if isinstance(a, Lin):
            a = Pos(a, 0, 0)
        if isinstance(b, Lin):
            b = Pos(b, 0, 0)
        ka, kb = pkey(a), pkey(b)
        return (ka > kb) - (ka < kb)

    @staticmethod
    def is_idx(i):
        if isinstance(i, Lin):
            return bool(i.v[0])
        return isinstance(i, (int, Pos, Count))

    def at(self, I, p):
        return grid_instant(p, self.form, self.tz)

    def iter(self, I):
        d = self.sub(self.hi, self.lo)
        if isinstance(d, int) and d <= 12:
            return [self.at(I, self.add(self.lo, i)) for i in range(d)]
        return SymSeq(('minutes', self.lo, self.hi),
                      lambda I: Top('minute'))

    def search(self, I, q, side):
        if not isinstance(q, T) or not self.compatible(I, q):
            return Top('search key')
        p = grid_search(q, side)
        if p is None:
            return Top('search')
        n = mkpos(_W[0].n, 0, 0)
        for b, f in ((0, lambda c: c < 0), (n, lambda c: c > 0)):
            if f(self.cmp(p, b)):
                p = b
        if self.cmp(p, self.lo) < 0:
            return self.lo
        if self.cmp(p, self.hi) > 0:
            return self.hi
        return p

    def _zone(self, I, tz, meth):
        if meth == 'm_tz_localize':
            if tz is None:
                return self.new(tz=None) if self.tz == UTCZ else \
                    Top('local wall time')
            if tz != UTCZ:
                return Top('localized to %s' % tz)
        return self.new(tz=tz)

    def binop(self, I, op, other):
        return Top('arithmetic on minutes')

    def m_append(self, I, other):
        return concat_grid(I, [self] + (other.items if isinstance(
            other, ListVal) else [other]), self)

    def setitem(self, I, key, v):
        I.soften('write to minutes')

    def m_isin(self, I, o):
        return Top('isin')


def grid_instant(p, form, tz):
    if isinstance(p, int):
        p = Pos(0, 0, p)
    s, part, c = p.s, p.part, p.c
    if part == 0:
        if c >= 0:
            t = T(s, OPEN, c * MIN)
        else:
            t = T(ladd(s, -1), CLOSE, (c + 1) * MIN)
    elif part == 1:
        t = T(s, M1, c * MIN)
    elif part == 2:
        t = T(s, BE, c * MIN) if c >= 0 else T(s, BS, (c + 1) * MIN)
    else:
        t = T(s, M2, c * MIN)
    return t.w_raw(form=form, tz=tz)


def grid_search(q, side):
    """position of the first minute >= q (left) or > q (right)"""
    s, slot, off = q.s, q.slot, q.off
    up = -(-off // MIN)          # ceil
    k = up if side == 'left' else off // MIN + 1
    if slot in (LABEL,):
        return mkpos(s, 0, 0)
    if slot == OPEN:
        return mkpos(s, 0, 0) if off < 0 else mkpos(s, 0, k)
    if slot == M1:
        return mkpos(s, 1, k)
    if slot == BS:
        return mkpos(s, 2, -1 + k) if off <= 0 else mkpos(s, 2, 0)
    if slot == BRK:
        return mkpos(s, 2, 0)
    if slot == BE:
        return mkpos(s, 2, 0) if off < 0 else mkpos(s, 2, k)
    if slot == M2:
        return mkpos(s, 3, k)
    if slot == CLOSE:
        if off > 0:
            return mkpos(ladd(s, 1), 0, 0)
        return mkpos(ladd(s, 1), 0, -1 + k)
    if slot in (GAP, NONLAB):
        return mkpos(ladd(s, 1), 0, 0)
    return None


class Piece(AbsVal):
    """np.arange(start, stop, step) over instants."""
    types = ('numpy.ndarray',)
    elementwise = True

    def __init__(self, start, stop, step):
        if step == MIN and isinstance(start, T) and isinstance(stop, T) and \
                start.off % MIN == 0:
            # any bound short of the next minute cuts at the same place
            stop = stop.w(off=-(-stop.off // MIN) * MIN)
        self.start, self.stop, self.step = start, stop, step

    def __repr__(self):
        return 'arange(%r, %r, %r)' % (self.start, self.stop, self.step)

    def last(self):
        """instant of the last element for whole-minute bounds"""
        if self.step != MIN:
            return None
        return self.stop.w(off=self.stop.off - 1)

    def key(self):
        return (self.start, self.stop, self.step)

    def m_view(self, I, t=None):
        return self

    m_astype = m_view

    def a_values(self, I):
        return self


class Grid(AbsVal):
    """Concatenated pieces: explicit list or generic per-session pieces."""
    types = ('numpy.ndarray',)
    elementwise = True

    def __init__(self, dom, pieces, form='ns', tz=None, cont='arr'):
        self.dom, self.pieces = dom, pieces
        self.form, self.tz, self.cont = form, tz, cont

    def __repr__(self):
        return 'grid(%s: %r)' % (
            'each session in [%r:%r)' % self.dom[1:] if self.dom else
            'pieces', self.pieces)

    def m_view(self, I, t=None):
        return Grid(self.dom, self.pieces, 'd64', None, 'arr')

    def m_astype(self, I, t, copy=True):
        return Grid(self.dom, self.pieces,
                    'ns' if tpath(t) in INT_TYPES else 'd64', None, 'arr')

    def a_values(self, I):
        return Grid(self.dom, self.pieces, 'd64', None, 'arr')

    def to_dti(self, I, tz):
        return Grid(self.dom, self.pieces, 'ts', tz, 'idx')

    def m_tz_localize(self, I, tz, **k):
        return Grid(self.dom, self.pieces, self.form, as_tz(tz), self.cont)

    def truth(self, I):
        return True


def piece_span(p, s):
    """(first position, one past the last position) in the minute grid of a
    piece lying in session s, or None when it is not grid aligned"""
    if isinstance(p, MArr):
        return p.lo, p.hi
    if p.step != MIN or p.start.off % MIN or p.stop.off % MIN:
        return None
    if p.start.slot in (BRK, GAP, LABEL, NONLAB) or \
            p.stop.slot in (BRK, GAP, LABEL, NONLAB):
        return None
    last = p.stop.w(off=p.stop.off - MIN)
    w = _W[0]
    for t in (p.start, last):
        if t.slot in BREAK_SLOTS and not w.has_break(t.s):
            return None
    a = grid_search(p.start, 'left')
    b = grid_search(last, 'right')
    # the bounds themselves must be minutes of the grid
    if grid_search(p.start, 'right') == a or grid_search(last, 'left') == b:
        return None
    # a piece may not run over a break
    if w.has_break(p.start.s) and p.start.s == last.s:
        if p.start.slot <= BS and last.slot >= BE:
            return None
    return a, b


def per_session(I, rep):
    """the column made by a loop that adds one element per session"""
    dom = getattr(rep.dom, 'dom', rep.dom)
    if not dom or dom[0] != 'sess' or len(rep.items) != 1:
        return None
    x, g = rep.items[0], ladd(dom[1], JJ)
    if isinstance(x, Wall) and x.s == g:
        fn = lambda p: Wall(p, x.e, x.tz, x.slotdate)
    elif isinstance(x, T) and x.s == g and x.slot == LABEL and x.off == 0:
        fn = lambda p: T(p, LABEL, 0, x.form, x.tz)
    else:
        return None
    return SArr(I, Col(I, fn), dom[1], dom[2], 'ts', x.tz, 'arr')


def concat_grid(I, parts, like=None):
    """Concatenate pieces; canonical when they tile the grid in order."""
    form = getattr(like, 'form', 'ns')
    tz = getattr(like, 'tz', None)
    cont = getattr(like, 'cont', 'arr')
    if any(isinstance(p, Rep) for p in parts):
        if not all(isinstance(p, Rep) for p in parts):
            return None
        doms = [getattr(p.dom, 'dom', p.dom) for p in parts]
        if any(d != doms[0] for d in doms) or doms[0][0] != 'sess':
            return None
        items = [x for p in parts for x in p.items]
        if any(isinstance(x, Rep) for x in items):
            return None
        dom = doms[0]
        gen = ladd(dom[1], JJ)
    else:
        items, dom, gen = parts, None, None
    flat = []
    for x in items:
        if isinstance(x, (Piece, MArr)):
            flat.append(x)
        elif isinstance(x, Grid) and x.dom is None:
            flat.extend(x.pieces)
        else:
            return None
    if isinstance(like, type(None)) and flat and isinstance(flat[0], MArr):
        form, tz, cont = ('d64' if flat[0].form == 'ts' else flat[0].form), \
            None, 'arr'
    spans = [piece_span(x, gen) for x in flat]
    if all(s is not None for s in spans) and spans:
        ok = all(a[1] == b[0] or pkey(a[1]) == pkey(b[0])
                 for a, b in zip(spans, spans[1:]))
        lo, hi = spans[0][0], spans[-1][1]
        if ok and dom is None:
            return MArr(I, lo, hi, form, tz, cont)
        if ok and pkey(lo) == pkey(mkpos(gen, 0, 0)) and \
                pkey(hi) == pkey(mkpos(ladd(gen, 1), 0, 0)):
            return MArr(I, mkpos(dom[1], 0, 0), mkpos(dom[2], 0, 0), form,
                        tz, cont)
    return Grid(dom, flat, form, tz, cont)


# ------------------------------------------------------- library models


def models():
    M = dict(stdmodels.M)

    def series(I, data=None, index=None, dtype=None, name=None, **k):
        ix = None
        if index is not None:
            ix = index
            if isinstance(ix, ListVal):
                ix = VArr(I, ix.items, 'idx', 'ts')
            if not isinstance(ix, (VArr, SArr)):
                return Top('Series index')
        if isinstance(data, SArr):
            return data.new(cont='series', index=ix if isinstance(ix, SArr)
                            else None)
        if isinstance(data, VArr):
            its, tz, form = data.items(), data.tz, data.form
        elif isinstance(data, (ListVal, NDArr)):
            its = data.items if isinstance(data, ListVal) else data.items()
            tz, form = None, 'ts'
            p = tpath(dtype)
            if 'UTC' in p:
                tz = UTCZ
        elif data is None and ix is None:
            its, tz, form = [], None, 'ts'
        else:
            return Top('Series')
        if ix is None:
            ix = VArr(I, list(range(len(its))))
        elif len(ix.items()) != len(its):
            I.throw('ValueError', 'Length of values does not match length '
                    'of index')
        return VArr(I, its, 'series', form, tz, ix)
    M['pandas.Series'] = series

    def frame(I, data=None, index=None, columns=None, dtype=None, copy=None):
        if not isinstance(data, DictVal):
            return Top('DataFrame')
        cols = {}
        idx = index
        p = tpath(dtype)
        for key, v in data.d.values():
            if not isinstance(key, str):
                return Top('DataFrame column')
            if isinstance(v, SArr):
                if idx is None:
                    return Top('DataFrame without index')
                if not isinstance(idx, SArr):
                    return Top('DataFrame index')
                if lcmp(lsub(v.hi, v.lo), lsub(idx.hi, idx.lo)):
                    I.throw('ValueError', 'Length of values does not match '
                            'length of index')
                if v.cont == 'series' and v.index is not None and \
                        v.index is not idx and v.index.col is not idx.col:
                    return Top('alignment')
                c = v.new(copy=True, cont='series', index=idx)
                if p == 'datetime64[ns]' and c.tz is not None:
                    if c.tz != UTCZ:
                        return Top('zoned column to naive')
                    c = c._zone(I, None, 'm_tz_localize') \
                        if isinstance(c.at(I, c.lo), T) else c.new(tz=None)
                    c = c.new(tz=None)
                cols[key] = c
            elif v is None:
                if not isinstance(idx, SArr):
                    return Top('DataFrame index')
                cols[key] = SArr(I, Col(I, lambda q: NAT), idx.lo, idx.hi,
                                 'ts', None, 'series', idx)
            else:
                return Top('DataFrame data')
        if columns is not None:
            it = I.iterate(columns)
            if not isinstance(it, list) or any(c not in cols for c in it):
                return Top('DataFrame columns')
            cols = {c: cols[c] for c in it}
        return FrameVal(I, idx, cols)
    M['pandas.DataFrame'] = frame

    def concat(I, objs, axis=0, **k):
        it = I.iterate(objs)
        if not isinstance(it, list):
            return Top('concat')
        if not it:
            I.throw('ValueError', 'No objects to concatenate')
        if all(isinstance(x, VArr) for x in it) and axis == 0:
            r = it[0]
            for x in it[1:]:
                r = r.m_append(I, x)
            return r if len(it) > 1 else r.m_copy(I)
        return Top('concat')
    M['pandas.concat'] = concat

    def bis(side):
        def f(I, a, x, lo=0, hi=None):
            if lo != 0 or hi is not None:
                return Top('bisect range')
            h = getattr(a, 'm_searchsorted', None)
            return h(I, x, side) if h else Top('bisect')
        return f
    def listed(orig):
        def f(I, data=None, *a, **kw):
            if isinstance(data, (ListVal, tuple, IterVal, SetVal)) and \
                    not isinstance(data, str):
                it = I.iterate(data)
                if isinstance(it, list) and \
                        (not it or any(isinstance(x, (T, Wall)) for x in it)):
                    data = VArr(I, it, 'arr', 'ts')
                elif isinstance(it, list) and len(it) == 1 and \
                        isinstance(it[0], Rep):
                    c = per_session(I, it[0])
                    data = c if c is not None else data
            return orig(I, data, *a, **kw)
        return f
    for nm in ('pandas.DatetimeIndex', 'pandas.to_datetime', 'pandas.Index'):
        M[nm] = listed(M[nm])
    M['bisect.bisect_left'] = bis('left')
    M['bisect.bisect_right'] = M['bisect.bisect'] = bis('right')
    return M


def hooks(I, world):
    """ctx entries of the order domain."""

    def date_range(I, start, end, periods, freq, tz, closed):
        I.ctx.setdefault('date_range_calls', []).append(
            dict(start=start, end=end, periods=periods, freq=freq, tz=tz,
                 closed=closed, where=I.where()))
        tz = as_tz(tz)
        if isinstance(freq, CBD) or isinstance(start, T):
            for x in (start, end):
                if isinstance(x, T) and x.tz is not None:
                    tz = x.tz
            n = world.n
            lo, hi = 0, n
            if isinstance(start, T):
                lo = start.s if start.slot == LABEL and start.off == 0 else \
                    ladd(start.s, 1)
                lo = lo if lcmp(lo, 0) > 0 else 0
            if isinstance(end, T):
                hi = ladd(end.s, 1)
                if not (end.slot == LABEL or tcmp(end, T(end.s, LABEL)) >= 0):
                    hi = end.s
                hi = hi if lcmp(hi, n) < 0 else n
            if closed == 'left':
                hi = ladd(n, -1)
            elif closed == 'right':
                lo = 1
            elif closed is not None:
                return Top('date_range closed')
            if periods is not None:
                return Top('date_range periods')
            return SArr(I, Col(I, lambda p: T(p, LABEL, 0, 'ts', tz)), lo,
                        hi, 'ts', tz, 'idx')
        return None

    def np_array(I, v, dtype):
        if isinstance(v, (SeqBase, VArr, Mask)):
            p = tpath(dtype)
            r = v if isinstance(v, Mask) or getattr(v, 'cont', '') == 'arr' \
                else v.a_values(I)
            if p in INT_TYPES:
                return r.m_astype(I, dtype)
            return r
        return None

    def np_arange(I, a, kw):
        if any(isinstance(x, T) for x in a):
            if len(a) == 3 and all(isinstance(x, T) for x in a[:2]):
                st = a[2]
                if isinstance(st, TD):
                    st = round(st.td.total_seconds() * 10 ** 9)
                if isinstance(st, float) and st == int(st):
                    st = int(st)
                if isinstance(st, int):
                    return Piece(a[0], a[1], st)
            if any(isinstance(x, NatInt) for x in a):
                return Top('arange from NaT')
        if len(a) == 1 and isinstance(a[0], Lin):
            return Top('arange(n)')
        return None

    def np_concatenate(I, seqs):
        it = I.iterate(seqs)
        if not isinstance(it, list) or not it:
            return None
        if any(isinstance(x, (Piece, MArr, Grid)) or
               (isinstance(x, Rep) and x.items and
                isinstance(x.items[0], (Piece, MArr, Grid)))
               for x in it):
            r = concat_grid(I, it)
            return Top('concatenate') if r is None else r
        if all(isinstance(x, SArr) for x in it):
            return concat_cols(I, it)
        if all(isinstance(x, VArr) for x in it):
            return VArr(I, [y for x in it for y in x.items()])
        return None

    def sym_enumerate(I, seq):
        if seq.dom and seq.dom[0] == 'sess':
            return SymSeq(seq.dom, lambda I: (JJ, seq.generic(I)))
        return SymSeq(seq.dom, lambda I: (Top('index'), seq.generic(I)))

    I.ctx.update(date_range=date_range, np_array=np_array,
                 np_arange=np_arange, np_concatenate=np_concatenate,
                 sym_enumerate=sym_enumerate, timedelta=timedelta_hook,
                 nat_int=NATINT)
