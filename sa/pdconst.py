"""Models of pandas / numpy / datetime / dateutil / pytz / pyluach values whose
content is known from the source (dates, tables, holiday rules, times).

Everything here is arithmetic on the facts written in the analysed source; the
analysed package and pandas itself are not run.
"""
import datetime as dtm
import re

from .core import (AbsVal, Top, Ext, Mutable, ListVal, DictVal, SetVal,
                   IterVal, InstVal, ClassVal, BoundModel, BoundMethod, AStr,
                   PyExc, Rep, is_native, CMP, BIN, Undecided)
from .stdmodels import M, C, model, Opaque, RangeVal

HOLIDAY_START = dtm.datetime(1970, 1, 1)       # pandas' own default window
HOLIDAY_END = dtm.datetime(2200, 12, 31)
ONE = dtm.timedelta(days=1)
DT_TYPES = ('pandas.Timestamp', 'pandas._libs.tslibs.timestamps.Timestamp',
            'pandas._libs.tslibs.timestamps._Timestamp',
            'datetime.datetime', 'datetime.date')


class TZ(AbsVal):
    types = ('datetime.tzinfo',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'TZ(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, TZ) and o.name == self.name

    def __hash__(self):
        return hash(('tz', self.name))

    def truth(self, I):
        return True

    def a_zone(self, I):
        return self.name

    def to_str(self, I):
        return self.name

    def host_str(self, I):
        return self.name

    def compare(self, I, op, other):
        if isinstance(other, TZ) and op in ('==', '!=', 'is', 'is not'):
            return (self.name == other.name) == (op in ('==', 'is'))
        return NotImplemented

    def m_localize(self, I, dt, **k):
        if isinstance(dt, TS):
            return TS(dt.dt, self, dt.py)
        return Top('localize')


UTCZ = TZ('UTC')
C['pytz.UTC'] = UTCZ
C['pytz.utc'] = UTCZ
C['datetime.timezone.utc'] = UTCZ
C['dateutil.tz.UTC'] = UTCZ


@model('pytz.timezone', 'zoneinfo.ZoneInfo', 'dateutil.tz.gettz')
def _timezone(I, name):
    if isinstance(name, str) and not isinstance(name, AStr):
        return TZ(name)
    return Top('timezone')


def as_tz(v):
    if isinstance(v, TZ):
        return v
    if isinstance(v, str) and not isinstance(v, AStr):
        return TZ(v)
    return v


class TimeVal(AbsVal):
    """datetime.time"""
    types = ('datetime.time',)

    def __init__(self, h=0, m=0, s=0, us=0):
        self.t = dtm.time(h, m, s, us)

    def __repr__(self):
        return 'time(%s)' % self.t

    def __eq__(self, o):
        return isinstance(o, TimeVal) and o.t == self.t

    def __hash__(self):
        return hash(self.t)

    def truth(self, I):
        return True

    def a_hour(self, I):
        return self.t.hour

    def a_minute(self, I):
        return self.t.minute

    def a_second(self, I):
        return self.t.second

    def a_microsecond(self, I):
        return self.t.microsecond

    def a_tzinfo(self, I):
        return None

    def m_replace(self, I, **k):
        try:
            t = self.t.replace(**k)
        except (TypeError, ValueError):
            return Top('time.replace')
        return TimeVal(t.hour, t.minute, t.second, t.microsecond)

    def compare(self, I, op, other):
        if isinstance(other, TimeVal) and op in CMP:
            return CMP[op](self.t, other.t)
        return NotImplemented


@model('datetime.time')
def _time(I, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
    if all(isinstance(x, int) for x in (hour, minute, second, microsecond)) \
            and tzinfo is None:
        try:
            return TimeVal(hour, minute, second, microsecond)
        except ValueError as e:
            I.throw('ValueError', str(e))
    return Top('time()')


class TD(AbsVal):
    """A known timedelta."""
    types = ('pandas.Timedelta', 'datetime.timedelta', 'numpy.timedelta64')

    def __init__(self, td):
        self.td = td

    def __repr__(self):
        return 'TD(%s)' % self.td

    def __eq__(self, o):
        return isinstance(o, TD) and o.td == self.td

    def __hash__(self):
        return hash(self.td)

    def truth(self, I):
        return bool(self.td)

    def a_days(self, I):
        return self.td.days

    def a_seconds(self, I):
        return self.td.seconds

    def a_value(self, I):
        return int(self.td / dtm.timedelta(microseconds=1)) * 1000

    def m_total_seconds(self, I):
        return self.td.total_seconds()

    def unop(self, I, op):
        return TD(-self.td) if op == '-' else self

    def binop(self, I, op, other):
        if isinstance(other, TD):
            if op == '+':
                return TD(self.td + other.td)
            if op == '-':
                return TD(self.td - other.td)
            if op == '/':
                return self.td / other.td
            if op == '//':
                return self.td // other.td
        if op == '*' and isinstance(other, (int, float)):
            return TD(self.td * other)
        if op in ('/', '//') and isinstance(other, (int, float)):
            return TD(self.td / other)
        return NotImplemented

    def rbinop(self, I, op, other):
        if op == '*' and isinstance(other, (int, float)):
            return TD(self.td * other)
        return NotImplemented

    def compare(self, I, op, other):
        if isinstance(other, TD) and op in CMP:
            return CMP[op](self.td, other.td)
        return NotImplemented


def _td(I, kw, names):
    d = dtm.timedelta(0)
    unit = dict(weeks=7 * 86400, days=86400, hours=3600, minutes=60,
                seconds=1, milliseconds=1e-3, microseconds=1e-6)
    for k, v in kw.items():
        if k not in unit or not isinstance(v, (int, float)):
            return Top('timedelta')
        d += dtm.timedelta(seconds=v * unit[k]) if isinstance(v, float) \
            else dtm.timedelta(**{k: v})
    return TD(d)


@model('datetime.timedelta')
def _timedelta(I, *a, **kw):
    for n, v in zip(('days', 'seconds', 'microseconds', 'milliseconds',
                     'minutes', 'hours', 'weeks'), a):
        kw[n] = v
    f = I.ctx.get('timedelta')
    if f is not None:
        r = f(I, kw)
        if r is not None:
            return r
    return _td(I, kw, None)


_UNITS = {'D': 'days', 'd': 'days', 'day': 'days', 'days': 'days',
          'h': 'hours', 'H': 'hours', 'hours': 'hours', 'hour': 'hours',
          'm': 'minutes', 'min': 'minutes', 'T': 'minutes',
          'minute': 'minutes', 'minutes': 'minutes', '1min': 'minutes',
          's': 'seconds', 'S': 'seconds', 'seconds': 'seconds',
          'W': 'weeks', 'ms': 'milliseconds', 'us': 'microseconds'}


@model('pandas.Timedelta')
def _Timedelta(I, value=None, unit=None, **kw):
    f = I.ctx.get('timedelta')
    if value is None:
        if f is not None:
            r = f(I, kw)
            if r is not None:
                return r
        return _td(I, kw, None)
    if f is not None:
        r = f(I, {_UNITS.get(unit, 'nanoseconds' if unit in (None, 'ns')
                             else unit): value})
        if r is not None:
            return r
    if isinstance(value, TD):
        return value
    if isinstance(value, (int, float)):
        u = 'ns' if unit is None else unit
        if u == 'ns':
            return TD(dtm.timedelta(microseconds=value / 1000.))
        if u in _UNITS:
            return _td(I, {_UNITS[u]: value}, None)
    if isinstance(value, str):
        m = re.match(r'^\s*(-?\d+)\s*([A-Za-z]+)\s*$', value)
        if m and m.group(2) in _UNITS:
            return _td(I, {_UNITS[m.group(2)]: int(m.group(1))}, None)
        m = re.match(r'^(-?)(\d+):(\d+):(\d+)$', value)
        if m:
            d = dtm.timedelta(hours=int(m.group(2)), minutes=int(m.group(3)),
                              seconds=int(m.group(4)))
            return TD(-d if m.group(1) else d)
    return Top('Timedelta')


@model('pandas.to_timedelta')
def _to_timedelta(I, arg, unit=None, errors='raise'):
    if isinstance(arg, (int, float, str, TD)) or \
            getattr(arg, 'scalar_number', False):
        return _Timedelta(I, arg, unit)
    it = arg.items() if isinstance(arg, NDArr) else \
        arg.items if isinstance(arg, ListVal) else None
    if it is not None and all(isinstance(x, (int, float, str, TD))
                              for x in it):
        out = [_Timedelta(I, int(x) if isinstance(x, bool) else x, unit)
               for x in it]
        return NDArr(I, out)
    return Top('to_timedelta')


@model('datetime.datetime.combine', 'pandas.Timestamp.combine')
def _combine(I, date, time, tzinfo=None):
    if tzinfo is None and isinstance(date, TS) and isinstance(time, TimeVal):
        t = time.t
        return TS(dtm.datetime.combine(date.dt.date(), t), None)
    f = getattr(date, 'combine', None)
    if tzinfo is None and f is not None:
        return f(I, time)
    return Top('combine')


@model('numpy.timedelta64')
def _td64(I, value, unit=None):
    f = I.ctx.get('timedelta')
    if f is not None and unit in _UNITS:
        r = f(I, {_UNITS[unit]: value})
        if r is not None:
            return r
    if isinstance(value, int) and unit in _UNITS:
        return _td(I, {_UNITS[unit]: value}, None)
    if isinstance(value, TD):
        return value
    return Top('timedelta64')


class NaTVal(AbsVal):
    types = ('pandas.NaT', 'pandas._libs.tslibs.nattype.NaTType')

    def __repr__(self):
        return 'NaT'

    def __eq__(self, o):
        return isinstance(o, NaTVal)

    def __hash__(self):
        return 77

    def compare(self, I, op, other):
        if op in ('is', 'is not'):
            if isinstance(other, Top):
                return NotImplemented
            return isinstance(other, NaTVal) == (op == 'is')
        if isinstance(other, Top):
            return NotImplemented
        if getattr(other, 'elementwise', False):
            return NotImplemented
        return op == '!='

    def truth(self, I):
        return True

    def binop(self, I, op, other):
        return self

    rbinop = binop

    def m_tz_localize(self, I, tz=None, **k):
        return self

    m_tz_convert = m_tz_localize

    def a_value(self, I):
        f = I.ctx.get('nat_int')
        return f if f is not None else Top('NaT.value')

    def a_tz(self, I):
        return None

    a_tzinfo = a_tz


NAT = NaTVal()
C['pandas.NaT'] = NAT

_ISO = re.compile(r'^\s*(\d{4})(?:[-/](\d{1,2})(?:[-/](\d{1,2})'
                  r'(?:[ T](\d{1,2}):(\d{2})(?::(\d{2}))?)?)?)?\s*$')
_COMPACT = re.compile(r'^(\d{4})(\d{2})(\d{2})$')
_US = re.compile(r'^(\d{1,2})/(\d{1,2})/(\d{4})$')
_MON = {m: i + 1 for i, m in enumerate(
    ['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct',
     'nov', 'dec'])}


def parse_date(s):
    m = _ISO.match(s)
    if m:
        g = [int(x) if x else None for x in m.groups()]
        g = [d if x is None else x for x, d in zip(g, (None, 1, 1, 0, 0, 0))]
        if not 1678 <= g[0] <= 2261:
            raise ValueError('Out of bounds nanosecond timestamp: %s' % s)
        return dtm.datetime(*g[:6])
    m = re.match(r'^([012]?\d|3[01])-(\d{1,2})$', s)
    if m:               # read as month and day of year 1
        raise ValueError('could not convert string to Timestamp: %s' % s)
    m = _COMPACT.match(s)
    if m:
        return dtm.datetime(*[int(x) for x in m.groups()])
    m = _US.match(s)
    if m:
        return dtm.datetime(int(m.group(3)), int(m.group(1)),
                            int(m.group(2)))
    m = re.match(r'^([A-Za-z]+)\.? (\d{1,2}),? (\d{4})$', s)
    if m and m.group(1)[:3].lower() in _MON:
        return dtm.datetime(int(m.group(3)), _MON[m.group(1)[:3].lower()],
                            int(m.group(2)))
    m = re.match(r'^(\d{1,2}) ([A-Za-z]+)\.?,? (\d{4})$', s)
    if m and m.group(2)[:3].lower() in _MON:
        return dtm.datetime(int(m.group(3)), _MON[m.group(2)[:3].lower()],
                            int(m.group(1)))
    return None


class TS(AbsVal):
    """A known timestamp: wall-clock ``dt`` in zone ``tz`` (None = naive)."""

    def __init__(self, dt, tz=None, py=None):
        self.dt, self.tz = dt, tz
        self.py = py            # None (Timestamp) | 'datetime' | 'date'

    @property
    def types(self):
        if self.py == 'date':
            return ('datetime.date',)
        if self.py == 'datetime':
            return ('datetime.datetime', 'datetime.date')
        return DT_TYPES

    def __repr__(self):
        return 'TS(%s%s)' % (self.dt, '' if self.tz is None
                             else ' ' + getattr(self.tz, 'name', '?'))

    def utc(self):
        """UTC wall clock (None when the zone rules are not modelled)."""
        if self.tz is None or self.tz == UTCZ:
            return self.dt
        return to_utc(self.dt, self.tz)

    def __eq__(self, o):
        return isinstance(o, TS) and (self.tz is None) == (o.tz is None) \
            and self.utc() == o.utc()

    def __hash__(self):
        return hash(self.dt)

    def truth(self, I):
        return True

    def to_str(self, I):
        if self.py == 'date':
            return str(self.dt.date())
        s = str(self.dt)
        if self.tz == UTCZ:
            s += '+00:00'
        elif self.tz is not None:
            return AStr(s)
        return s

    host_str = to_str

    def host_format(self, I, spec):
        if spec and '%' in spec:
            return self.dt.strftime(spec)
        return None

    def a_year(self, I):
        return self.dt.year

    def a_month(self, I):
        return self.dt.month

    def a_day(self, I):
        return self.dt.day

    def a_hour(self, I):
        return self.dt.hour

    def a_minute(self, I):
        return self.dt.minute

    def a_second(self, I):
        return self.dt.second

    def a_microsecond(self, I):
        return self.dt.microsecond

    def a_nanosecond(self, I):
        return 0

    def a_quarter(self, I):
        return (self.dt.month - 1) // 3 + 1

    def a_dayofweek(self, I):
        return self.dt.weekday()

    a_day_of_week = a_dayofweek

    def a_days_in_month(self, I):
        return _dim(self.dt.year, self.dt.month)

    a_daysinmonth = a_days_in_month

    def a_week(self, I):
        return self.dt.isocalendar()[1]

    a_weekofyear = a_week

    def a_is_leap_year(self, I):
        return _dim(self.dt.year, 2) == 29

    def a_is_month_start(self, I):
        return self.dt.day == 1

    def a_is_month_end(self, I):
        return self.dt.day == _dim(self.dt.year, self.dt.month)

    def m_isocalendar(self, I):
        return tuple(self.dt.isocalendar())

    def m_toordinal(self, I):
        return self.dt.toordinal()

    def a_dayofyear(self, I):
        return self.dt.timetuple().tm_yday

    def a_tz(self, I):
        return self.tz

    a_tzinfo = a_tz

    def a_asm8(self, I):
        u = self.utc()
        return D64(u) if u is not None else Top('asm8')

    def m_to_datetime64(self, I):
        return self.a_asm8(I)

    def a_value(self, I):
        u = self.utc()
        if u is None:
            return Top('value')
        return int((u - dtm.datetime(1970, 1, 1)).total_seconds()) * 10 ** 9

    def m_weekday(self, I):
        return self.dt.weekday()

    def m_isoweekday(self, I):
        return self.dt.isoweekday()

    def m_date(self, I):
        return TS(dtm.datetime(self.dt.year, self.dt.month, self.dt.day),
                  None, 'date')

    def m_time(self, I):
        return TimeVal(self.dt.hour, self.dt.minute, self.dt.second)

    def m_normalize(self, I):
        return TS(dtm.datetime(self.dt.year, self.dt.month, self.dt.day),
                  self.tz, self.py)

    def m_floor(self, I, freq):
        if freq in ('D', '1D'):
            return self.m_normalize(I)
        return Top('floor')

    def m_to_pydatetime(self, I, **k):
        return TS(self.dt, self.tz, 'datetime')

    def m_strftime(self, I, f):
        return self.dt.strftime(f)

    def m_isoformat(self, I):
        return self.dt.isoformat()

    def m_day_name(self, I):
        return self.dt.strftime('%A')

    def m_month_name(self, I):
        return self.dt.strftime('%B')

    def m_timestamp(self, I):
        return Top('timestamp()')

    def m_tz_localize(self, I, tz, **k):
        if self.tz is not None and tz is not None:
            I.throw('TypeError', 'Cannot localize tz-aware Timestamp, use '
                    'tz_convert for conversions')
        tz = as_tz(tz)
        if isinstance(tz, Top):
            return tz
        return TS(self.dt, tz, self.py)

    def m_tz_convert(self, I, tz):
        if self.tz is None:
            I.throw('TypeError', 'Cannot convert tz-naive Timestamp')
        tz = as_tz(tz)
        if tz == self.tz:
            return self
        u = self.utc()
        if u is None or isinstance(tz, Top):
            return Top('tz_convert')
        if tz is None:
            return TS(u, None)
        if tz == UTCZ:
            return TS(u, tz)
        w = from_utc(u, tz)
        return Top('tz_convert') if w is None else TS(w, tz)

    m_astimezone = m_tz_convert

    def m_replace(self, I, **k):
        tz = self.tz
        if 'tzinfo' in k:
            tz = k.pop('tzinfo')
        k.pop('nanosecond', None)
        if not all(isinstance(v, int) for v in k.values()):
            return Top('replace')
        try:
            return TS(self.dt.replace(**k), tz, self.py)
        except ValueError as e:
            I.throw('ValueError', str(e))

    def shift(self, td):
        return TS(self.dt + td, self.tz, self.py)

    def binop(self, I, op, other):
        if isinstance(other, TD):
            try:
                if op == '+':
                    return self.shift(other.td)
                if op == '-':
                    return self.shift(-other.td)
            except OverflowError:
                return Top('overflow')
        if op == '-' and isinstance(other, TS):
            if (self.tz is None) != (other.tz is None):
                I.throw('TypeError', 'tz-naive and tz-aware')
            a, b = self.utc(), other.utc()
            if a is not None and b is not None:
                return TD(a - b)
        if is_offset(other) and op in '+-':
            return apply_offset(I, other if op == '+'
                                else neg_offset(I, other), self)
        return NotImplemented

    def rbinop(self, I, op, other):
        if op == '+' and isinstance(other, TD):
            return self.shift(other.td)
        if op == '+' and is_offset(other):
            return apply_offset(I, other, self)
        return NotImplemented

    def compare(self, I, op, other):
        if op not in CMP:
            return NotImplemented
        if isinstance(other, D64):
            other = TS(other.dt)
            u = self.utc()
            return CMP[op](u, other.dt) if u else Top()
        if isinstance(other, TS):
            if (self.tz is None) != (other.tz is None):
                if op == '==':
                    return False
                if op == '!=':
                    return True
                I.throw('TypeError',
                        'Cannot compare tz-naive and tz-aware timestamps')
            if (self.py == 'date') != (other.py == 'date') and \
                    op not in ('==', '!='):
                return Top('date vs timestamp')
            a, b = self.utc(), other.utc()
            if a is None or b is None:
                return Top('zone rules')
            return CMP[op](a, b)
        return NotImplemented

    def isinstance_of(self, I, path):
        return path in self.types


class NowTS(AbsVal):
    """A timestamp that depends on the clock; delta is its distance from the
    clock (None when unknown)."""
    types = DT_TYPES
    scalar = True

    def __init__(self, label='now', tz=None, delta=dtm.timedelta(0)):
        self.label, self.tz, self.delta = label, tz, delta

    def __repr__(self):
        return 'Now(%s)' % self.label

    def binop(self, I, op, other):
        if op not in '+-':
            return NotImplemented
        if isinstance(other, TD):
            d = self.delta
            if d is not None:
                d = d + other.td if op == '+' else d - other.td
            return NowTS('%s%s%s' % (self.label, op, other.td), self.tz, d)
        if isinstance(other, OffVal):
            d = self.delta
            if d is not None and other.kind_ == 'Day':
                d += dtm.timedelta(other.n if op == '+' else -other.n)
            elif d is not None and other.kind_ == 'DateOffset' and \
                    set(other.kw) <= {'days', 'weeks', 'hours', 'minutes'} \
                    and other.kw and all(isinstance(x, (int, float))
                                         for x in other.kw.values()):
                x = dtm.timedelta(**other.kw) * other.n
                d = d + x if op == '+' else d - x
            else:
                d = None
            return NowTS('%s%s%r' % (self.label, op, other), self.tz, d)
        return NotImplemented

    def rbinop(self, I, op, other):
        return self.binop(I, op, other) if op == '+' else NotImplemented

    # a day at most is cut off, which no whole-day question can tell

    def m_normalize(self, I):
        return NowTS(self.label + '.normalize', self.tz, self.delta)

    def m_floor(self, I, *a, **k):
        return NowTS(self.label + '.floor', self.tz, self.delta)

    def m_tz_localize(self, I, tz, **k):
        return NowTS(self.label, as_tz(tz), self.delta)

    m_tz_convert = m_tz_localize

    def a_tz(self, I):
        return self.tz

    a_tzinfo = a_tz

    def a_year(self, I):
        return I.ctx.get('now_year', Top('now.year'))

    def a_month(self, I):
        return I.ctx.get('now_month', Top('now.month'))

    def truth(self, I):
        return True


_zi = {}
OLD_ZONES = {'Asia/Calcutta': 'Asia/Kolkata', 'NZ': 'Pacific/Auckland',
             'US/Eastern': 'America/New_York',
             'US/Central': 'America/Chicago', 'Japan': 'Asia/Tokyo',
             'Hongkong': 'Asia/Hong_Kong', 'Singapore': 'Asia/Singapore',
             'ROK': 'Asia/Seoul', 'PRC': 'Asia/Shanghai',
             'Turkey': 'Europe/Istanbul', 'GB': 'Europe/London',
             'Eire': 'Europe/Dublin', 'Poland': 'Europe/Warsaw',
             'Portugal': 'Europe/Lisbon', 'Israel': 'Asia/Jerusalem',
             'Iceland': 'Atlantic/Reykjavik',
             'Canada/Eastern': 'America/Toronto',
             'Brazil/East': 'America/Sao_Paulo'}


def zone(name):
    if name not in _zi:
        try:
            import zoneinfo
            _zi[name] = zoneinfo.ZoneInfo(OLD_ZONES.get(name, name))
        except Exception:
            _zi[name] = None
    return _zi[name]


def to_utc(dt, tz):
    z = zone(getattr(tz, 'name', '?'))
    if z is None:
        return None
    return (dt.replace(tzinfo=z) - dt.replace(tzinfo=z).utcoffset()) \
        .replace(tzinfo=None)


def from_utc(dt, tz):
    z = zone(getattr(tz, 'name', '?'))
    if z is None:
        return None
    return dt.replace(tzinfo=dtm.timezone.utc).astimezone(z) \
        .replace(tzinfo=None)


@model('pandas.Timestamp')
def _Timestamp(I, value=None, *a, **kw):
    tz = as_tz(kw.pop('tz', None))
    kw.pop('freq', None)
    unit = kw.pop('unit', None)
    f = getattr(value, 'to_timestamp', None)
    if f is not None:
        return f(I, tz, unit)
    if any(getattr(x, 'elementwise', False)
           for x in (value,) + a + tuple(kw.values())):
        I.throw('TypeError', 'Cannot convert array to Timestamp')
    if isinstance(value, TS):
        if value.tz is None:
            return TS(value.dt, tz)
        if tz is None:
            return TS(value.dt, value.tz)
        return value.m_tz_convert(I, tz)
    if isinstance(value, NowTS):
        return NowTS(value.label, tz or value.tz, value.delta)
    if isinstance(value, D64):
        return TS(value.dt, tz)
    if isinstance(value, NaTVal):
        return value
    if isinstance(value, HolidayVal):
        return Top('Timestamp(Holiday)')
    if isinstance(value, str) and not isinstance(value, AStr):
        if value in ('today', 'now'):
            return NowTS(value, tz)
        if value.startswith(ARR_TEXT):
            I.throw('ValueError', 'could not convert string to Timestamp')
        try:
            d = parse_date(value)
        except ValueError as e:
            I.throw('ValueError', str(e))
        return Top('Timestamp(%r)' % value) if d is None else TS(d, tz)
    if isinstance(value, int) and a and all(isinstance(x, int) for x in a):
        try:
            return TS(dtm.datetime(value, *a), tz)
        except ValueError as e:
            I.throw('ValueError', str(e))
    if value is None and 'year' in kw:
        try:
            return TS(dtm.datetime(**{k: v for k, v in kw.items()}), tz)
        except (TypeError, ValueError):
            return Top('Timestamp')
    if isinstance(value, int) and not a:
        if unit in (None, 'ns'):
            return TS(dtm.datetime(1970, 1, 1) +
                      dtm.timedelta(microseconds=value // 1000), tz)
    return Top('Timestamp')


@model('pandas.Timestamp.utcnow')
def _utcnow(I):
    return NowTS('now', UTCZ)


@model('pandas.Timestamp.now', 'pandas.Timestamp.today',
       'datetime.datetime.now', 'datetime.datetime.today',
       'datetime.datetime.utcnow', 'datetime.date.today')
def _now(I, *a, **k):
    tz = a[0] if a else k.get('tz')
    return NowTS('now', as_tz(tz))


@model('datetime.datetime')
def _datetime(I, *a, **kw):
    tz = kw.pop('tzinfo', None)
    if all(isinstance(x, int) for x in list(a) + list(kw.values())):
        try:
            return TS(dtm.datetime(*a, **kw), tz, 'datetime')
        except (ValueError, TypeError) as e:
            I.throw(type(e).__name__, str(e))
    return Top('datetime')


@model('datetime.date')
def _date(I, *a, **kw):
    if all(isinstance(x, int) for x in list(a) + list(kw.values())):
        try:
            d = dtm.date(*a, **kw)
        except (ValueError, TypeError) as e:
            I.throw(type(e).__name__, str(e))
        return TS(dtm.datetime(d.year, d.month, d.day), None, 'date')
    return Top('date')


@model('datetime.datetime.strptime')
def _strptime(I, s, f):
    if is_native(s) and is_native(f):
        try:
            return TS(dtm.datetime.strptime(s, f), None, 'datetime')
        except ValueError as e:
            I.throw('ValueError', str(e))
    return Top('strptime')


class D64(AbsVal):
    """A known numpy.datetime64 scalar."""
    types = ('numpy.datetime64',)

    def __init__(self, dt, unit='ns'):
        self.dt, self.unit = dt, unit

    def __repr__(self):
        return 'D64(%s)' % self.dt

    def __eq__(self, o):
        return isinstance(o, D64) and o.dt == self.dt

    def __hash__(self):
        return hash(self.dt)

    def m_astype(self, I, t):
        return d64_astype(I, self, t)

    def binop(self, I, op, other):
        if isinstance(other, TD) and op in '+-':
            return D64(self.dt + (other.td if op == '+' else -other.td),
                       self.unit)
        if isinstance(other, int) and op in '+-':
            k = other if op == '+' else -other
            if self.unit == 'Y':
                return D64(self.dt.replace(year=self.dt.year + k), 'Y')
            if self.unit == 'D':
                return D64(self.dt + k * ONE, 'D')
        if op == '-' and isinstance(other, D64):
            return TD(self.dt - other.dt)
        return NotImplemented

    def compare(self, I, op, other):
        if isinstance(other, D64) and op in CMP:
            return CMP[op](self.dt, other.dt)
        return NotImplemented


def d64_astype(I, d, t):
    t = t if isinstance(t, str) else getattr(t, 'path', '')
    if t in ('M8[Y]', 'datetime64[Y]'):
        return D64(dtm.datetime(d.dt.year, 1, 1), 'Y')
    if t in ('M8[M]', 'datetime64[M]'):
        return D64(dtm.datetime(d.dt.year, d.dt.month, 1), 'M')
    if t in ('M8[D]', 'datetime64[D]'):
        return D64(dtm.datetime(d.dt.year, d.dt.month, d.dt.day), 'D')
    if t in ('M8[ns]', 'datetime64[ns]'):
        return D64(d.dt)
    if t in ('numpy.int64', 'int64', 'builtins.int', 'i8'):
        return int((d.dt - dtm.datetime(1970, 1, 1)).total_seconds()) \
            * 10 ** 9
    return Top('astype')


@model('numpy.datetime64')
def _d64(I, v, unit=None):
    if isinstance(v, TS):
        u = v.utc()
        return D64(u, unit or 'ns') if u else Top()
    if isinstance(v, str):
        if v == 'NaT':
            return NAT
        d = parse_date(v)
        return D64(d) if d else Top()
    if isinstance(v, D64):
        return v
    if isinstance(v, HolidayVal) and isinstance(v.year, int):
        return D64(dtm.datetime(v.year, v.month, v.day), 'D')
    if isinstance(v, NaTVal):
        return v
    return Top('datetime64')


# --------------------------------------------------------------------------
# arrays of known length


class Buf(Mutable):
    """Storage shared by an array and its views."""

    def __init__(self, I, data, name=None):
        self.data = list(data)
        self.init(I)


ARR_TEXT = 'Int64Index([...])'


class NDArr(AbsVal):
    types = ('numpy.ndarray',)
    elementwise = True

    def __init__(self, I, data, buf=None, idx=None, dtype=None):
        if buf is None:
            buf = Buf(I, data)
            idx = None
        self.buf, self.idx = buf, idx
        self.dtype = dtype

    def items(self):
        if self.idx is None:
            return self.buf.data
        return [self.buf.data[i] for i in self.idx]

    def __repr__(self):
        return 'ND%r' % (self.items(),)

    def iter(self, I):
        return list(self.items())

    def len(self, I):
        return len(self.items())

    def a_size(self, I):
        return len(self.items())

    def a_shape(self, I):
        return (len(self.items()),)

    def a_ndim(self, I):
        return 1

    def a_T(self, I):
        return self

    def a_values(self, I):
        return self

    def a_dtype(self, I):
        return Top('dtype')

    def truth(self, I):
        it = self.items()
        if len(it) == 1:
            x = it[0]
            return x.truth(I) if isinstance(x, AbsVal) else bool(x)
        if not it:
            return False
        I.throw('ValueError', 'The truth value of an array with more than '
                'one element is ambiguous')

    def call(self, I, args, kw):
        I.throw('TypeError', 'array is not callable')

    def to_str(self, I):
        return ARR_TEXT

    host_str = to_str

    def _map(self, I, f, dtype=None):
        return NDArr(I, [f(x) for x in self.items()], dtype=dtype)

    def _other(self, I, other):
        if isinstance(other, NDArr):
            return other.items()
        if isinstance(other, DTI):
            return other.scalars()
        if isinstance(other, ListVal):
            return other.items
        if isinstance(other, tuple):
            return list(other)
        return None

    def _pair(self, I, other, f):
        o = self._other(I, other)
        a = self.items()
        if o is None:
            return NDArr(I, [f(x, other) for x in a])
        if len(o) != len(a):
            if len(o) == 1:
                return NDArr(I, [f(x, o[0]) for x in a])
            if len(a) == 1:
                return NDArr(I, [f(a[0], y) for y in o])
            I.throw('ValueError', 'operands could not be broadcast together')
        return NDArr(I, [f(x, y) for x, y in zip(a, o)])

    def _uniform(self, I, op, other):
        """combination of all-true or all-false flags with a symbolic mask"""
        it = self.items()
        if op in ('&', '|') and getattr(other, 'is_mask', False) and it and \
                isinstance(it[0], bool) and all(x is it[0] for x in it):
            return Fill(len(it), it[0]).binop(I, op, other)
        return None

    def binop(self, I, op, other):
        r = self._uniform(I, op, other)
        if r is not None:
            return r
        return self._pair(I, other, lambda x, y: I.binop(op, x, y))

    def rbinop(self, I, op, other):
        r = self._uniform(I, op, other)
        if r is not None:
            return r
        return self._pair(I, other, lambda x, y: I.binop(op, y, x))

    def iadd(self, I, op, other):
        r = self.binop(I, op, other)
        if not isinstance(r, NDArr):
            return r
        I.write(self.buf, 'in-place array operation')
        idx = self.idx if self.idx is not None else range(len(self.buf.data))
        for i, v in zip(idx, r.items()):
            self.buf.data[i] = v
        return self

    def unop(self, I, op):
        if op == '~':
            return self._map(I, lambda x: (not x) if isinstance(x, bool)
                             else I.unop('~', x))
        return self._map(I, lambda x: I.unop(op, x))

    def compare(self, I, op, other):
        if op in ('is', 'is not'):
            return (self is other) == (op == 'is')
        if isinstance(other, (TS, D64)) or isinstance(other, NDArr) or \
                isinstance(other, DTI) or not isinstance(other, AbsVal) or \
                isinstance(other, (ListVal, TD, NaTVal)) or True:
            def f(x, y):
                if isinstance(x, D64) and isinstance(y, TS):
                    x = TS(x.dt, y.tz)
                elif isinstance(y, D64) and isinstance(x, TS):
                    y = TS(y.dt, x.tz)
                return I.compare(op, x, y)
            return self._pair(I, other, f)

    def contains(self, I, x):
        return I.any_eq(self.items(), x)

    def m_sort(self, I, *a, **k):
        I.write(self.buf, 'in-place sort')
        xs = ListVal(I, self.items())
        xs.m_sort(I)
        if any(isinstance(x, Top) for x in xs.items):
            I.soften('array sort')
        idx = self.idx if self.idx is not None else range(len(self.buf.data))
        for i, v in zip(idx, xs.items):
            self.buf.data[i] = v

    def m_fill(self, I, value):
        self.setitem(I, slice(None, None, None), value)

    def _mask(self, key):
        """indices selected by a key, or None"""
        n = len(self.items())
        if isinstance(key, slice):
            try:
                return list(range(n))[key]
            except TypeError:
                return None
        ks = None
        if isinstance(key, NDArr):
            ks = key.items()
        elif isinstance(key, ListVal):
            ks = key.items
        if ks is None:
            return None
        if all(isinstance(k, bool) for k in ks) and (ks or True):
            if len(ks) != n:
                return 'bad' if ks else []
            return [i for i, k in enumerate(ks) if k]
        if all(isinstance(k, int) for k in ks):
            return [k if k >= 0 else n + k for k in ks]
        return None

    def getitem(self, I, key):
        if isinstance(key, int):
            try:
                return self.items()[key]
            except IndexError as e:
                I.throw('IndexError', str(e))
        if isinstance(key, tuple) and len(key) == 1:
            return self.getitem(I, key[0])
        m = self._mask(key)
        if m is None:
            return Top('array item')
        if m == 'bad':
            I.throw('IndexError', 'boolean index did not match')
        base = self.idx if self.idx is not None else \
            range(len(self.buf.data))
        base = list(base)
        try:
            sel = [base[i] for i in m]
        except IndexError as e:
            I.throw('IndexError', str(e))
        if isinstance(key, slice):
            return NDArr(I, None, self.buf, sel, self.dtype)
        return NDArr(I, [self.buf.data[i] for i in sel], dtype=self.dtype)

    def setitem(self, I, key, value):
        I.write(self.buf, 'array item assignment')
        base = list(self.idx) if self.idx is not None else \
            list(range(len(self.buf.data)))
        if isinstance(key, int):
            m = [key]
        else:
            m = self._mask(key)
        if m is None or m == 'bad':
            I.soften('array write')
            for i in base:
                self.buf.data[i] = Top('weak array update')
            return
        o = self._other(I, value)
        if o is None:
            for i in m:
                self.buf.data[base[i]] = value
        else:
            if len(o) == 1:
                o = o * len(m)
            for i, v in zip(m, o):
                self.buf.data[base[i]] = v

    def m_copy(self, I, *a, **k):
        return NDArr(I, self.items(), dtype=self.dtype)

    def m_tolist(self, I):
        return ListVal(I, self.items())

    to_list = m_tolist

    def m_to_numpy(self, I, **k):
        return self

    def m_view(self, I, t=None):
        return NDArr(I, None, self.buf, self.idx, self.dtype)

    def m_astype(self, I, t, copy=True):
        tt = t if isinstance(t, str) else getattr(t, 'path', '')
        if tt in ('builtins.bool', 'numpy.bool', 'bool'):
            return self._map(I, lambda x: I.truth(x))
        return self._map(
            I, lambda x: d64_astype(I, x, t) if isinstance(x, D64)
            else (x if isinstance(x, (int, bool)) and
                  ('int' in tt) else Top('astype')))

    def _fold(self, I, op):
        it = self.items()
        if not it:
            I.throw('ValueError', 'zero-size array')
        from .stdmodels import _extreme
        return _extreme(op)(I, ListVal(I, it))

    def m_min(self, I, **k):
        return self._fold(I, '<')

    def m_max(self, I, **k):
        return self._fold(I, '>')

    np_min, np_max = m_min, m_max

    def m_sum(self, I, **k):
        t = 0
        for x in self.items():
            t = I.binop('+', t, int(x) if isinstance(x, bool) else x)
        return t

    def m_any(self, I, **k):
        rs = [I.truth(x) for x in self.items()]
        return any(rs)

    def m_all(self, I, **k):
        rs = [I.truth(x) for x in self.items()]
        return all(rs)

    def m_nonzero(self, I):
        return (self.np_flatnonzero(I),)

    def m_ravel(self, I):
        return self

    m_flatten = m_ravel

    def np_flatnonzero(self, I):
        return NDArr(I, [i for i, x in enumerate(self.items())
                         if I.truth(x)])

    def m_argmax(self, I):
        for i, x in enumerate(self.items()):
            if I.truth(x):
                return i
        return 0

    def m_isin(self, I, vals):
        return np_in1d(I, self, vals)

    def np_sort(self, I):
        r = I.sorted(self.items(), None, False)
        return Top('sort') if r is None else NDArr(I, r)

    def m_searchsorted(self, I, v, side='left', sorter=None):
        return Top('searchsorted')


def np_in1d(I, a, vals):
    it = I.iterate(a)
    vs = I.iterate(vals)
    if isinstance(it, list) and not isinstance(vs, list) and \
            hasattr(vals, 'm_get_indexer'):
        r = vals.m_get_indexer(I, a)
        if isinstance(r, NDArr):
            return NDArr(I, [I.compare('!=', x, -1) for x in r.items()])
    if not isinstance(it, list) or not isinstance(vs, list):
        return Top('in1d')
    out = []
    for x in it:
        if isinstance(x, TS):
            x = D64(x.utc() or x.dt)
        r = I.any_eq([D64(v.utc() or v.dt) if isinstance(v, TS) else v
                      for v in vs], x)
        out.append(r)
    return NDArr(I, out)


class DTI(AbsVal):
    """A DatetimeIndex with known elements (datetimes, None for NaT)."""
    types = ('pandas.DatetimeIndex', 'pandas.Index')
    elementwise = True

    def __init__(self, I, data, tz=None, buf=None, name=None):
        self.buf = buf if buf is not None else Buf(I, data)
        self.tz = tz
        self.cached = {}

    @property
    def data(self):
        return self.buf.data

    def __repr__(self):
        return 'DTI(%s, tz=%s)' % ([str(d)[:10] for d in self.data], self.tz)

    def scalars(self):
        return [NAT if d is None else TS(d, self.tz) for d in self.data]

    def iter(self, I):
        return self.scalars()

    def len(self, I):
        return len(self.data)

    a_size = len

    def a_shape(self, I):
        return (len(self.data),)

    def truth(self, I):
        I.throw('ValueError', 'The truth value of a DatetimeIndex is '
                'ambiguous')

    def _field(self, I, f):
        return NDArr(I, [None if d is None else f(d) for d in self.data])

    def a_year(self, I):
        return self._field(I, lambda d: d.year)

    def a_month(self, I):
        return self._field(I, lambda d: d.month)

    def a_day(self, I):
        return self._field(I, lambda d: d.day)

    def a_hour(self, I):
        return self._field(I, lambda d: d.hour)

    def a_minute(self, I):
        return self._field(I, lambda d: d.minute)

    def a_weekday(self, I):
        return self._field(I, lambda d: d.weekday())

    a_dayofweek = a_day_of_week = a_weekday

    def a_second(self, I):
        return self._field(I, lambda d: d.second)

    def a_quarter(self, I):
        return self._field(I, lambda d: (d.month + 2) // 3)

    def a_days_in_month(self, I):
        return self._field(I, lambda d: _dim(d.year, d.month))

    a_daysinmonth = a_days_in_month

    def a_week(self, I):
        return self._field(I, lambda d: d.isocalendar()[1])

    a_weekofyear = a_week

    def a_is_leap_year(self, I):
        return self._field(I, lambda d: _dim(d.year, 2) == 29)

    def a_is_month_start(self, I):
        return self._field(I, lambda d: d.day == 1)

    def a_is_month_end(self, I):
        return self._field(I, lambda d: d.day == _dim(d.year, d.month))

    def m_day_name(self, I, locale=None):
        return Top('locale') if locale else \
            self._field(I, lambda d: d.strftime('%A'))

    def m_month_name(self, I, locale=None):
        return Top('locale') if locale else \
            self._field(I, lambda d: d.strftime('%B'))

    def a_dayofyear(self, I):
        return self._field(I, lambda d: d.timetuple().tm_yday)

    def a_date(self, I):
        return NDArr(I, [TS(dtm.datetime(d.year, d.month, d.day), None,
                            'date') for d in self.data])

    def a_tz(self, I):
        return self.tz

    a_tzinfo = a_tz

    def a_empty(self, I):
        return not self.data

    def a_values(self, I):
        if self.tz is None or self.tz == UTCZ:
            return ViewArr(I, self)
        return Top('values of zoned index')

    def m_to_numpy(self, I, **k):
        return self.a_values(I)

    def a_asi8(self, I):
        return Top('asi8')

    def a_is_monotonic_increasing(self, I):
        d = [x for x in self.data if x is not None]
        return all(a <= b for a, b in zip(d, d[1:]))

    a_is_monotonic = a_is_monotonic_increasing

    def a_is_unique(self, I):
        return len(set(self.data)) == len(self.data)

    def m_copy(self, I, *a, **k):
        return DTI(I, self.data, self.tz)

    def m_tolist(self, I):
        return ListVal(I, self.scalars())

    m_to_list = m_tolist

    def m_to_pydatetime(self, I):
        return NDArr(I, [x.m_to_pydatetime(I) for x in self.scalars()])

    def m_to_series(self, I, *a, **k):
        return Top('to_series')

    def m_strftime(self, I, f):
        return NDArr(I, [d.strftime(f) for d in self.data])

    def m_normalize(self, I):
        return DTI(I, [dtm.datetime(d.year, d.month, d.day)
                       for d in self.data], self.tz)

    def m_tz_localize(self, I, tz, **k):
        if self.tz is not None and tz is not None:
            I.throw('TypeError', 'Already tz-aware, use tz_convert')
        return DTI(I, self.data, as_tz(tz))

    def m_tz_convert(self, I, tz):
        if self.tz is None:
            I.throw('TypeError', 'Cannot convert tz-naive timestamps')
        tz = as_tz(tz)
        if tz == self.tz:
            return DTI(I, self.data, tz)
        out = []
        for d in self.data:
            r = TS(d, self.tz).m_tz_convert(I, tz)
            if not isinstance(r, TS):
                return Top('tz_convert')
            out.append(r.dt)
        return DTI(I, out, tz)

    def _dts(self, I, other):
        """datetimes of another collection, in this zone (or None)"""
        if isinstance(other, DTI):
            return list(other.data)
        it = I.iterate(other)
        if not isinstance(it, list):
            return None
        out = []
        for x in it:
            d = to_dt(x)
            if d is None:
                return None
            out.append(d)
        return out

    def m_append(self, I, other):
        if isinstance(other, ListVal) or isinstance(other, (tuple,)):
            parts = other.items if isinstance(other, ListVal) else other
        else:
            parts = [other]
        data = list(self.data)
        tz = self.tz
        for p in parts:
            if not isinstance(p, DTI):
                return Top('append')
            if p.tz != tz:
                return Top('append of mixed zones')
            data += p.data
        return DTI(I, data, tz)

    def m_union(self, I, other, *a, **k):
        d = self._dts(I, other)
        if d is None:
            return Top('union')
        return DTI(I, sorted(set(self.data) | set(d)), self.tz)

    def m_union_many(self, I, others):
        r = self
        for o in I.iterate(others):
            r = r.m_union(I, o)
        return r

    def m_difference(self, I, other, *a, **k):
        d = self._dts(I, other)
        if d is None:
            return Top('difference')
        return DTI(I, sorted(set(self.data) - set(d)), self.tz)

    def m_intersection(self, I, other, *a, **k):
        d = self._dts(I, other)
        if d is None:
            return Top('intersection')
        return DTI(I, sorted(set(self.data) & set(d)), self.tz)

    def m_drop(self, I, labels, **k):
        d = self._dts(I, labels) if not isinstance(labels, (TS,)) \
            else [labels.dt]
        if d is None:
            return Top('drop')
        return DTI(I, [x for x in self.data if x not in d], self.tz)

    def m_delete(self, I, i):
        if isinstance(i, int):
            d = list(self.data)
            del d[i]
            return DTI(I, d, self.tz)
        return Top('delete')

    def m_insert(self, I, i, v):
        d = to_dt(v)
        if isinstance(i, int) and d is not None:
            x = list(self.data)
            x.insert(i, d)
            return DTI(I, x, self.tz)
        return Top('insert')

    def m_unique(self, I, **k):
        return DTI(I, list(dict.fromkeys(self.data)), self.tz)

    m_drop_duplicates = m_unique

    def m_sort_values(self, I, **k):
        return DTI(I, sorted(self.data), self.tz)

    def m_isin(self, I, vals):
        d = self._dts(I, vals)
        if d is None:
            return Top('isin')
        s = set(d)
        return NDArr(I, [x in s for x in self.data])

    def m_min(self, I, **k):
        d = [x for x in self.data if x is not None]
        return TS(min(d), self.tz) if d else NAT

    def m_max(self, I, **k):
        d = [x for x in self.data if x is not None]
        return TS(max(d), self.tz) if d else NAT

    np_min, np_max = m_min, m_max

    def np_sort(self, I):
        return NDArr(I, [D64(d) for d in sorted(self.data)])

    def m_shift(self, I, n=1, freq=None):
        if isinstance(freq, TD):
            return DTI(I, [d + freq.td * n for d in self.data], self.tz)
        if freq == 'D':
            return DTI(I, [d + ONE * n for d in self.data], self.tz)
        return Top('shift')

    def m_repeat(self, I, n):
        return Top('repeat')

    def m_map(self, I, f):
        def whole():
            r = I.call(f, [self])
            if isinstance(r, NDArr):
                r = to_index(I, r)
            if isinstance(r, Top):
                raise Undecided('map over index: %s' % r.why)
            if not isinstance(r, DTI):
                I.throw('TypeError', 'not an index')
            return r
        try:
            return whole()
        except PyExc:
            pass
        out = [I.call(f, [x]) for x in self.scalars()]
        return to_index(I, NDArr(I, out), self.tz)

    def m_where(self, I, cond, other=None):
        c = cond.items() if isinstance(cond, NDArr) else None
        if c is None or not all(isinstance(x, bool) for x in c):
            return Top('where')
        if other is None:
            o = [None] * len(c)
        elif isinstance(other, DTI):
            o = other.data
        elif to_dt(other) is not None:
            o = [to_dt(other)] * len(c)
        else:
            return Top('where')
        return DTI(I, [d if k else x for d, k, x in zip(self.data, c, o)],
                   self.tz)

    def m_take(self, I, idx):
        return self.getitem(I, idx)

    def m_searchsorted(self, I, v, side='left', sorter=None):
        import bisect
        d = to_dt(v)
        if d is None:
            return Top('searchsorted')
        return (bisect.bisect_left if side == 'left'
                else bisect.bisect_right)(self.data, d)

    def m_get_loc(self, I, v, *a, **k):
        d = to_dt(v)
        if d is None:
            return Top('get_loc')
        if d in self.data:
            return self.data.index(d)
        I.throw('KeyError', v)

    def m_slice_indexer(self, I, a=None, b=None, *r, **k):
        import bisect
        da, db = to_dt(a), to_dt(b)
        if (a is not None and da is None) or (b is not None and db is None):
            return Top('slice_indexer')
        return slice(0 if da is None else bisect.bisect_left(self.data, da),
                     len(self.data) if db is None
                     else bisect.bisect_right(self.data, db))

    def m_astype(self, I, t, **k):
        return Top('astype')

    def m_to_frame(self, I, *a, **k):
        return Top('to_frame')

    def contains(self, I, x):
        if isinstance(x, TS):
            if (x.tz is None) != (self.tz is None):
                return Top('naive/aware containment')
            return x.utc() in self.data if x.utc() else Top()
        d = to_dt(x)
        return Top('contains') if d is None else d in self.data

    def getitem(self, I, key):
        if isinstance(key, int):
            try:
                d = self.data[key]
            except IndexError as e:
                I.throw('IndexError', str(e))
            return NAT if d is None else TS(d, self.tz)
        tmp = NDArr(I, list(range(len(self.data))))
        m = tmp._mask(key)
        if m is None:
            return Top('index item')
        if m == 'bad':
            I.throw('IndexError', 'boolean index did not match')
        try:
            return DTI(I, [self.data[i] for i in m], self.tz)
        except IndexError as e:
            I.throw('IndexError', str(e))

    def setitem(self, I, key, v):
        I.throw('TypeError', 'Index does not support mutable operations')

    def binop(self, I, op, other):
        if isinstance(other, TD) and op in '+-':
            td = other.td if op == '+' else -other.td
            return DTI(I, [None if d is None else d + td for d in self.data],
                       self.tz)
        if is_offset(other) and op in '+-':
            off = other if op == '+' else neg_offset(I, other)
            out = []
            for x in self.scalars():
                r = x if x is NAT else apply_offset(I, off, x)
                if not isinstance(r, (TS, NaTVal)):
                    return Top('index + offset')
                out.append(None if r is NAT else r.dt)
            return DTI(I, out, self.tz)
        if op == '|' and isinstance(other, DTI):
            return self.m_union(I, other)
        if op == '&' and isinstance(other, DTI):
            return self.m_intersection(I, other)
        if op == '-' and isinstance(other, (DTI, TS)):
            return Top('index difference')
        return NotImplemented

    def rbinop(self, I, op, other):
        if op == '+':
            return self.binop(I, op, other)
        return NotImplemented

    def compare(self, I, op, other):
        if op in ('is', 'is not'):
            return (self is other) == (op == 'is')
        if op not in CMP:
            return NotImplemented
        o = None
        if isinstance(other, str) and not isinstance(other, AStr):
            d = parse_date(other)
            if d is None:
                return Top('comparison')
            other = TS(d, self.tz)
        if isinstance(other, (TS, D64)):
            if isinstance(other, TS) and \
                    (other.tz is None) != (self.tz is None):
                if op in ('==', '!='):
                    return NDArr(I, [op == '!='] * len(self.data))
                I.throw('TypeError', 'Cannot compare tz-naive and tz-aware '
                        'datetime-like objects')
            d = other.utc() if isinstance(other, TS) else other.dt
            if d is None:
                return Top('zone')
            return NDArr(I, [op == '!=' if x is None else CMP[op](x, d)
                             for x in self.data])
        if isinstance(other, NaTVal):
            return NDArr(I, [op == '!=' for x in self.data])
        if isinstance(other, NDArr):
            o = [to_dt(x) for x in other.items()]
        elif isinstance(other, DTI):
            o = other.data
        if o is not None:
            if len(o) != len(self.data):
                if op in ('==', '!='):
                    return op == '!='
                I.throw('ValueError', 'Lengths must match')
            return NDArr(I, [(op == '!=') if x is None or y is None
                             else CMP[op](x, y)
                             for x, y in zip(self.data, o)])
        if isinstance(other, AbsVal):
            return NotImplemented
        if op in ('==', '!='):
            return NDArr(I, [op == '!='] * len(self.data))
        I.throw('TypeError', 'Invalid comparison')


class ViewArr(NDArr):
    """ndarray view of the storage of a DatetimeIndex."""

    def __init__(self, I, dti):
        AbsVal.__init__(self)
        self.buf = dti.buf
        self.idx = None
        self.dtype = 'M8[ns]'

    def items(self):
        return [NAT if d is None else D64(d) for d in self.buf.data]

    def setitem(self, I, key, value):
        I.write(self.buf, 'array item assignment through .values')
        n = len(self.buf.data)
        m = [key] if isinstance(key, int) else self._mask(key)
        o = self._other(I, value)
        if m is None or m == 'bad':
            I.soften('array write')
            return
        if o is None:
            o = [value] * len(m)
        elif len(o) == 1:
            o = o * len(m)
        for i, v in zip(m, o):
            d = to_dt(v)
            if d is None and not isinstance(v, NaTVal):
                I.soften('array write of unknown value')
                continue
            self.buf.data[i] = d

    def getitem(self, I, key):
        r = NDArr.getitem(self, I, key) if not isinstance(key, slice) \
            else NDArr(I, self.items()).getitem(I, key)
        if isinstance(r, NDArr):
            r = NDArr(I, [NAT if x is None else
                          (D64(x) if isinstance(x, dtm.datetime) else x)
                          for x in r.items()])
        return r

    def iadd(self, I, op, other):
        r = self.binop(I, op, other)
        if isinstance(r, NDArr):
            self.setitem(I, slice(None), r)
            return self
        return r

    def m_view(self, I, t=None):
        return self


def to_dt(x):
    if isinstance(x, TS):
        return x.utc()
    if isinstance(x, D64):
        return x.dt
    if isinstance(x, dtm.datetime):
        return x
    if isinstance(x, str) and not isinstance(x, AStr):
        try:
            return parse_date(x)
        except ValueError:
            return None
    if isinstance(x, HolidayVal) and isinstance(x.year, int):
        return dtm.datetime(x.year, x.month, x.day)
    return None


def to_index(I, v, tz=None, localize=None):
    """DatetimeIndex of a collection (or Top)."""
    if isinstance(v, DTI):
        return v
    it = I.iterate(v)
    if not isinstance(it, list):
        return Top('to index')
    data = []
    ztz = None
    for x in it:
        if x is None or isinstance(x, NaTVal):
            data.append(None)
            continue
        d = to_dt(x)
        if d is None:
            if isinstance(x, str) and not isinstance(x, AStr):
                I.throw('ValueError', 'could not parse %s' % x)
            return Top('to index: %r' % (x,))
        if isinstance(x, TS) and x.tz is not None:
            ztz = x.tz
            if x.tz != UTCZ:
                return Top('zoned element')
        data.append(d)
    return DTI(I, data, ztz)


@model('pandas.to_datetime')
def _to_datetime(I, v, utc=None, format=None, **k):
    if isinstance(v, (str, TS)) and not isinstance(v, AStr):
        r = _Timestamp(I, v)
        if utc is True and isinstance(r, TS) and r.tz is None:
            return TS(r.dt, UTCZ)
        return r
    f = getattr(v, 'to_datetime', None)
    if f is not None:
        return f(I, utc)
    r = to_index(I, v)
    if isinstance(r, DTI) and utc is True:
        if r.tz is None:
            return DTI(I, r.data, UTCZ)
        return r.m_tz_convert(I, UTCZ)
    if r is v and isinstance(r, DTI):
        return DTI(I, None, r.tz, r.buf)
    return r


@model('pandas.DatetimeIndex')
def _DatetimeIndex(I, data=None, *a, **kw):
    tz = as_tz(kw.get('tz'))
    f = getattr(data, 'to_dti', None)
    if f is not None:
        return f(I, tz)
    if data is None:
        return Top('DatetimeIndex')
    r = to_index(I, data)
    if isinstance(r, DTI):
        if r is data:
            r = DTI(I, None, r.tz, r.buf)
        elif isinstance(data, ViewArr) and not kw.get('copy'):
            r = DTI(I, None, None, data.buf)
        if tz is not None:
            if r.tz is None:
                return DTI(I, None, tz, r.buf) if isinstance(tz, TZ) else \
                    Top()
            return r.m_tz_convert(I, tz)
    return r


M['pandas.Index'] = _DatetimeIndex


@model('pandas.date_range')
def _date_range(I, start=None, end=None, periods=None, freq='D', tz=None,
                normalize=False, name=None, closed=None, **kw):
    if kw:
        I.throw('TypeError', 'unexpected keyword argument %s' % sorted(kw)[0])
    h = I.ctx.get('date_range')
    if h is not None:
        r = h(I, start, end, periods, freq, tz, closed)
        if r is not None:
            return r
    for x in (start, end):
        if isinstance(x, str) and not isinstance(x, AStr):
            try:
                parse_date(x)
            except ValueError as e:
                I.throw('ValueError', str(e))
    a, b = to_dt(start), to_dt(end)
    tz = as_tz(tz)
    for x in (start, end):
        if isinstance(x, TS) and x.tz is not None:
            tz = x.tz
    if freq is None:
        freq = 'D'
    if a is None or (b is None and not isinstance(periods, int)):
        if a is None and b is not None and isinstance(periods, int) and \
                freq == 'D':
            a = b - ONE * (periods - 1)
        else:
            return Top('date_range')
    out = []
    step = ONE
    if isinstance(freq, TD):
        step = freq.td
        freq = 'D'
    elif isinstance(freq, OffVal) and freq.kind_ == 'Day':
        step = ONE * freq.n
        freq = 'D'
    if freq in ('D', '1D', 'B', 'C'):
        d = a
        n = 0
        while (b is None or d <= b) and (periods is None or n < periods):
            if freq in 'BC' and d.weekday() >= 5:
                d += step
                continue
            out.append(d)
            n += 1
            d += step
            if len(out) > 100000:
                return Top('date_range')
    elif isinstance(freq, str) and (
            freq in ('MS', 'M', 'A', 'Y', 'AS', 'YS', 'BM') or
            re.match(r'^W(-[A-Z]{3})?$', freq)):
        if b is None:
            return Top('date_range')
        d = a
        wd = {'MON': 0, 'TUE': 1, 'WED': 2, 'THU': 3, 'FRI': 4, 'SAT': 5,
              'SUN': 6}
        while d <= b:
            nx = d + ONE
            ok = {'MS': d.day == 1, 'M': nx.day == 1,
                  'AS': d.month == 1 and d.day == 1,
                  'YS': d.month == 1 and d.day == 1,
                  'A': nx.month == 1 and nx.day == 1,
                  'Y': nx.month == 1 and nx.day == 1}.get(freq)
            if freq[0] == 'W':
                ok = d.weekday() == wd[freq[2:] or 'SUN']
            if ok is None:
                return Top('date_range')
            if ok:
                out.append(d)
            d = nx
    else:
        return Top('date_range freq')
    if closed == 'left' and out and b is not None and out[-1] == b:
        out.pop()
    if closed == 'right' and out and out[0] == a:
        out.pop(0)
    return DTI(I, out, tz)


@model('pandas.bdate_range')
def _bdate_range(I, start=None, end=None, **k):
    k.setdefault('freq', 'B')
    return _date_range(I, start, end, **k)


# ---- numpy on known arrays, with dispatch to other array domains


def _dispatch(name, arg=0):
    def f(I, *args, **kw):
        h = getattr(args[arg], 'np_' + name, None) or \
            getattr(args[arg], 'm_' + name, None)
        if h is None:
            return Top('numpy.' + name)
        try:
            return h(I, *(args[:arg] + args[arg + 1:]), **kw)
        except TypeError as e:
            if 'argument' in str(e):
                return Top('numpy.' + name)
            raise
    return f


for _n in ('searchsorted', 'flatnonzero', 'nonzero', 'argmax', 'argmin',
           'cumsum', 'diff', 'count_nonzero', 'ravel', 'isnat', 'take'):
    M['numpy.' + _n] = _dispatch(_n)
_searchsorted = M['numpy.searchsorted']


@model('numpy.searchsorted')
def _np_searchsorted(I, a, *args, **kw):
    if isinstance(a, (int, float)) or getattr(a, 'scalar', False):
        I.throw('ValueError', 'object of too small depth for desired array')
    return _searchsorted(I, a, *args, **kw)


M['pandas.isna'] = _dispatch('isnull')
M['pandas.notna'] = _dispatch('notnull')


@model('pandas.isnull', 'pandas.isna', 'numpy.isnat')
def _isnull(I, v):
    f = getattr(v, 'np_isnull', None)
    if f is not None:
        return f(I)
    if v is None or isinstance(v, NaTVal):
        return True
    if isinstance(v, (TS, D64, int, str, TD)):
        return False
    if isinstance(v, DTI):
        return NDArr(I, [d is None for d in v.data])
    if isinstance(v, NDArr):
        return NDArr(I, [isinstance(x, NaTVal) or x is None
                         for x in v.items()])
    return Top('isnull')


@model('pandas.notnull', 'pandas.notna')
def _notnull(I, v):
    r = _isnull(I, v)
    if isinstance(r, bool):
        return not r
    if isinstance(r, Top):
        return r
    return I.unop('~', r)


def _np_list(I, v):
    if isinstance(v, (ListVal, tuple)):
        it = I.iterate(v)
        if any(isinstance(x, Rep) for x in it):
            return None
        return it
    return None


def _np_extreme(op, nm):
    def f(I, v, *a, **kw):
        h = getattr(v, 'np_' + nm, None)
        if h is not None:
            return h(I)
        it = I.iterate(v)
        if isinstance(it, list):
            from .stdmodels import _extreme
            return _extreme(op)(I, ListVal(I, it))
        return Top('numpy.' + nm)
    return f


M['numpy.min'] = M['numpy.amin'] = _np_extreme('<', 'min')
M['numpy.max'] = M['numpy.amax'] = _np_extreme('>', 'max')


@model('numpy.sum')
def _npsum(I, v, *a, **k):
    f = getattr(v, 'm_sum', None)
    if f is not None:
        return f(I)
    it = _np_list(I, v)
    if it is not None:
        return NDArr(I, it).m_sum(I)
    return Top('numpy.sum')


def _np_alls(name):
    def f(I, v, axis=None, **k):
        it = _np_list(I, v)
        if it is not None:
            if axis == 0 and it and any(getattr(x, 'elementwise', False)
                                        for x in it):
                acc = it[0]
                for x in it[1:]:
                    acc = I.binop('&' if name == 'all' else '|', acc, x)
                return acc
            v = NDArr(I, it)
        h = getattr(v, 'm_' + name, None)
        if h is not None:
            return h(I)
        if isinstance(v, bool):
            return v
        return Top('numpy.' + name)
    return f


M['numpy.all'] = _np_alls('all')
M['numpy.any'] = _np_alls('any')


def _np_binop(op, cmp=False):
    def f(I, a, b, *r, **k):
        if isinstance(a, ListVal):
            a = NDArr(I, a.items)
        if isinstance(b, ListVal):
            b = NDArr(I, b.items)
        return I.compare(op, a, b) if cmp else I.binop(op, a, b)
    return f


for _n, _o in dict(logical_and='&', logical_or='|', bitwise_and='&',
                   bitwise_or='|', logical_xor='^', bitwise_xor='^', add='+', subtract='-',
                   multiply='*', floor_divide='//').items():
    M['numpy.' + _n] = _np_binop(_o)
M['numpy.logical_and.reduce'] = lambda I, v, *a, **k: \
    _np_alls('all')(I, v, 0)
for _n, _o in dict(equal='==', not_equal='!=', less='<', less_equal='<=',
                   greater='>', greater_equal='>=').items():
    M['numpy.' + _n] = _np_binop(_o, True)


def _np_pick(op, name):
    """numpy.minimum / numpy.maximum: one of two values, element by element"""
    def pick(I, x, y):
        for z in (x, y):
            if isinstance(z, NaTVal):
                return z
        r = I.compare(op, x, y)
        return x if r is True else y if r is False else Top('numpy.' + name)

    def f(I, a, b, *r, **k):
        for v, o in ((a, b), (b, a)):
            h = getattr(v, 'np_pick', None)
            if h is not None:
                return h(I, o, pick)
        va, vb = [x.items() if isinstance(x, NDArr) else _np_list(I, x)
                  for x in (a, b)]
        if va is None and vb is None:
            if getattr(a, 'elementwise', False) or \
                    getattr(b, 'elementwise', False):
                return Top('numpy.' + name)
            return pick(I, a, b)
        n = len(va if va is not None else vb)
        if va is None:
            va = [a] * n
        if vb is None:
            vb = [b] * n
        if len(va) != len(vb):
            return Top('numpy.' + name)
        return NDArr(I, [pick(I, x, y) for x, y in zip(va, vb)])
    return f


M['numpy.minimum'] = M['numpy.fmin'] = _np_pick('<=', 'minimum')
M['numpy.maximum'] = M['numpy.fmax'] = _np_pick('>=', 'maximum')


@model('numpy.clip')
def _clip(I, a, lo=None, hi=None, *r, **k):
    if lo is not None:
        a = M['numpy.maximum'](I, a, lo)
    return a if hi is None else M['numpy.minimum'](I, a, hi)


def _set_item(I, a, key, value):
    f = getattr(a, 'setitem', None)
    if f is None:
        I.soften('write into an unknown array')
    else:
        f(I, key, value)


@model('numpy.put')
def _np_put(I, a, ind, v, *r, **k):
    _set_item(I, a, ind, v)


@model('numpy.place', 'numpy.putmask')
def _np_putmask(I, a, mask, v):
    if isinstance(v, NDArr) or getattr(v, 'elementwise', False) or \
            isinstance(v, ListVal):
        _set_item(I, a, Top('mask'), Top('written value'))
    else:
        _set_item(I, a, mask, v)


@model('numpy.copyto')
def _np_copyto(I, dst, src, casting=None, where=True):
    if where is True:
        _set_item(I, dst, slice(None), src)
    elif isinstance(src, NDArr) or getattr(src, 'elementwise', False):
        _set_item(I, dst, Top('mask'), Top('written value'))
    else:
        _set_item(I, dst, where, src)


@model('numpy.logical_not', 'numpy.invert')
def _npnot(I, a):
    return I.unop('~', a)


@model('numpy.array', 'numpy.asarray', 'numpy.asanyarray')
def _array(I, v, dtype=None, **k):
    h = I.ctx.get('np_array')
    if h is not None:
        r = h(I, v, dtype)
        if r is not None:
            return r
    if isinstance(v, (NDArr,)):
        return v.m_copy(I)
    if isinstance(v, DTI):
        if dtype is not None:
            return Top('array(dtype)')
        return v.a_values(I).m_copy(I)
    it = I.iterate(v)
    if isinstance(it, list) and not any(isinstance(x, Rep) for x in it):
        dt = dtype if isinstance(dtype, str) else getattr(dtype, 'path', None)
        if dt in (None, 'numpy.object', 'object', 'builtins.object'):
            return NDArr(I, it)
        if dt.startswith('datetime64') or dt.startswith('M8'):
            out = []
            for x in it:
                d = to_dt(x)
                if d is None:
                    return Top('array')
                out.append(D64(d, dt[-2] if dt[-3] == '[' else 'ns'))
            return NDArr(I, out)
        if dt in ('numpy.int64', 'int64', 'builtins.int') and \
                all(isinstance(x, int) for x in it):
            return NDArr(I, it)
        if dt in ('numpy.int64', 'int64') and it and \
                all(isinstance(x, NaTVal) for x in it):
            return NDArr(I, [I.ctx.get('nat_int') or NATINT] * len(it))
    return Top('array')


class NatInt(AbsVal):
    """The int64 encoding of NaT (the minimum int64)."""

    def __repr__(self):
        return 'NATINT'

    def __eq__(self, o):
        return isinstance(o, NatInt)

    def __hash__(self):
        return 5

    def compare(self, I, op, other):
        if isinstance(other, NatInt) and op in CMP:
            return CMP[op](0, 0)
        if isinstance(other, int) and op in CMP:
            return CMP[op](-2 ** 63, other)
        return NotImplemented

    def to_timestamp(self, I, tz, unit):
        return NAT

    def truth(self, I):
        return True


NATINT = NatInt()


@model('numpy.in1d', 'numpy.isin')
def _in1d(I, a, vals, *r, **k):
    return np_in1d(I, a, vals)


def tpath(t):
    if isinstance(t, str):
        return t
    return getattr(t, 'path', '')


class IInfo(AbsVal):
    def __init__(self, bits):
        self.bits = bits

    def a_min(self, I):
        if self.bits == 64:
            return I.ctx.get('nat_int') or NATINT
        return -2 ** (self.bits - 1)

    def a_max(self, I):
        return 2 ** (self.bits - 1) - 1


@model('numpy.iinfo')
def _iinfo(I, t):
    b = {'numpy.int64': 64, 'int64': 64, 'builtins.int': 64, 'i8': 64,
         'numpy.int32': 32, 'int32': 32}.get(tpath(t))
    return IInfo(b) if b else Top('iinfo')


@model('numpy.int64')
def _int64(I, v=0):
    if isinstance(v, (bool, float)):
        return int(v)
    if isinstance(v, int):
        return (I.ctx.get('nat_int') or NATINT) if v == -2 ** 63 else v
    if isinstance(v, NatInt):
        return v
    if isinstance(v, NaTVal):
        return I.ctx.get('nat_int') or NATINT
    f = getattr(v, 'to_int', None)
    return f(I) if f else Top('int64')


@model('numpy.concatenate', 'numpy.hstack')
def _concatenate(I, seqs, *a, **k):
    h = I.ctx.get('np_concatenate')
    if h is not None:
        r = h(I, seqs)
        if r is not None:
            return r
    it = I.iterate(seqs)
    if not isinstance(it, list):
        return Top('concatenate')
    out = []
    for s in it:
        if isinstance(s, Rep):
            return Top('concatenate of repeated')
        x = I.iterate(s)
        if not isinstance(x, list):
            return Top('concatenate')
        out.extend(D64(y.dt) if isinstance(y, TS) and
                   (y.tz is None or y.tz == UTCZ) else y for y in x)
    return NDArr(I, out)


@model('numpy.arange')
def _arange(I, *a, **k):
    h = I.ctx.get('np_arange')
    if h is not None:
        r = h(I, a, k)
        if r is not None:
            return r
    if all(isinstance(x, int) for x in a) and len(range(*a)) < 10000:
        return NDArr(I, list(range(*a)))
    return Top('arange')


@model('numpy.where')
def _where(I, c, *a):
    if not a:
        f = getattr(c, 'np_flatnonzero', None)
        return (f(I),) if f else Top('where')
    if isinstance(c, NDArr) and len(a) == 2:
        n = len(c.items())

        def vec(x):
            it = I.iterate(x) if getattr(x, 'elementwise', False) or \
                isinstance(x, (ListVal, tuple)) else [x] * n
            return it if isinstance(it, list) and len(it) == n else None
        x, y = vec(a[0]), vec(a[1])
        if x is not None and y is not None:
            return NDArr(I, [p if I.truth(k) else q
                             for k, p, q in zip(c.items(), x, y)])
    f = getattr(c, 'np_where', None)
    return f(I, *a) if f else Top('where')


@model('numpy.sort')
def _npsort(I, a, *r, **k):
    f = getattr(a, 'np_sort', None)
    if f is not None:
        return f(I)
    it = _np_list(I, a)
    if it is not None:
        return NDArr(I, it).np_sort(I)
    return Top('sort')


@model('numpy.unique')
def _npunique(I, a, *r, **k):
    if r or k:
        return Top('unique')
    s = _npsort(I, a)
    if not isinstance(s, NDArr):
        return s
    out = []
    for x in s.items():
        e = I.compare('==', out[-1], x) if out else False
        if e is False:
            out.append(x)
        elif e is not True:
            return Top('unique')
    return NDArr(I, out)


@model('numpy.append')
def _npappend(I, a, b):
    return _concatenate(I, ListVal(I, [a, b if getattr(b, 'elementwise',
                                                       False)
                                       else ListVal(I, [b])]))


class Fill(AbsVal):
    """An array of unknown length holding one value everywhere."""
    types = ('numpy.ndarray',)
    elementwise = True

    def __init__(self, n, value):
        self.n, self.value = n, value

    def __repr__(self):
        return 'Fill(%r, %r)' % (self.n, self.value)

    def len(self, I):
        return self.n

    def truth(self, I):
        I.throw('ValueError', 'truth value of an array is ambiguous')

    def binop(self, I, op, other):
        if self.value is True and op == '&' or \
                self.value is False and op == '|':
            if getattr(other, 'elementwise', False) or \
                    isinstance(other, bool):
                return Fill(self.n, other) if isinstance(other, bool) \
                    else other
        if self.value is False and op == '&' or \
                self.value is True and op == '|':
            return self
        return Top('filled array')

    rbinop = binop
    iadd = binop

    def unop(self, I, op):
        if op == '~' and isinstance(self.value, bool):
            return Fill(self.n, not self.value)
        return Top('filled array')

    def m_all(self, I, **k):
        return True if self.value is True else Top('all')

    def m_any(self, I, **k):
        return False if self.value is False else Top('any')

    def m_copy(self, I):
        return Fill(self.n, self.value)

    def setitem(self, I, key, value):
        I.soften('write into a filled array')
        self.value = Top('filled array')


def _filled(name, value):
    like = name.endswith('_like')

    def f(I, n, *a, **k):
        v = value
        a = list(a)
        if v is None:
            v = a.pop(0) if a else k.get('fill_value', Top('fill'))
        dt = a[0] if a else k.get('dtype')
        dt = dt if isinstance(dt, str) else getattr(dt, 'path', None)
        if dt in ('builtins.bool', 'bool', 'numpy.bool_', 'numpy.bool') and \
                isinstance(v, (int, bool)):
            v = bool(v)
        elif dt is not None and not isinstance(v, Top):
            if dt not in ('builtins.int', 'int', 'int64', 'numpy.int64',
                          'builtins.object', 'object', 'numpy.object'):
                v = Top('filled array')
        if like:
            n = I.call(Ext('builtins.len'), [n], {})
        elif isinstance(n, tuple) and len(n) == 1:
            n = n[0]
        if isinstance(n, bool) or isinstance(n, (tuple, Top)):
            return Top('array allocation')
        if isinstance(n, int):
            return NDArr(I, [v] * n)
        return Fill(n, v)
    M['numpy.' + name] = f


for _n, _v in dict(zeros=0, ones=1, full=None, empty=Top('empty'),
                   zeros_like=0, ones_like=1, full_like=None,
                   empty_like=Top('empty')).items():
    _filled(_n, _v)


@model('numpy.array_equal')
def _array_equal(I, a, b, **k):
    def aslist(x):
        return NDArr(I, x.items) if isinstance(x, ListVal) else x
    a, b = aslist(a), aslist(b)
    la, lb = [I.call(Ext('builtins.len'), [x], {}) for x in (a, b)]
    if I.compare('==', la, lb) is False:
        return False
    return _np_alls('all')(I, I.compare('==', a, b))


# --------------------------------------------------------------------------
# offsets


class WkDay(AbsVal):
    """dateutil weekday(idx, n)"""

    def __init__(self, i, n=None):
        self.i, self.n = i, n

    def __repr__(self):
        return 'wd%d(%s)' % (self.i, self.n)

    def __eq__(self, o):
        return isinstance(o, WkDay) and (o.i, o.n) == (self.i, self.n)

    def __hash__(self):
        return hash((self.i, self.n))

    def call(self, I, args, kw):
        n = args[0] if args else kw.get('n')
        return WkDay(self.i, n) if isinstance(n, int) else Top('weekday')

    def a_weekday(self, I):
        return self.i

    def truth(self, I):
        return True


for _i, _n in enumerate(('MO', 'TU', 'WE', 'TH', 'FR', 'SA', 'SU')):
    C['dateutil.relativedelta.' + _n] = WkDay(_i)
    C['pandas.tseries.holiday.' + _n] = WkDay(_i)


class OffVal(AbsVal):
    types = ('pandas.DateOffset', 'pandas.tseries.offsets.DateOffset')

    def __init__(self, kind, n=1, **kw):
        self.kind_, self.n, self.kw = kind, n, kw

    def __repr__(self):
        return 'Off(%s,%d,%r)' % (self.kind_, self.n, self.kw)

    def __eq__(self, o):
        return isinstance(o, OffVal) and (self.kind_, self.n, self.kw) == \
            (o.kind_, o.n, o.kw)

    def __hash__(self):
        return hash((self.kind_, self.n))

    def truth(self, I):
        return True

    def unop(self, I, op):
        return neg_offset(I, self) if op == '-' else Top('offset')

    def binop(self, I, op, other):
        if op == '*' and isinstance(other, int):
            return OffVal(self.kind_, self.n * other, **self.kw)
        if op == '+' and isinstance(other, TS):
            return apply_offset(I, self, other)
        if op == '+' and self.kind_ == 'Day' and isinstance(other, OffVal) \
                and other.kind_ == 'Day':
            return OffVal('Day', self.n + other.n)
        return NotImplemented

    def rbinop(self, I, op, other):
        if op == '*' and isinstance(other, int):
            return OffVal(self.kind_, self.n * other, **self.kw)
        return NotImplemented

    def a_n(self, I):
        return self.n

    def call(self, I, args, kw):
        if len(args) == 1 and isinstance(args[0], TS):
            return apply_offset(I, self, args[0])
        if len(args) == 1 and isinstance(args[0], DTI):
            return args[0].binop(I, '+', self)
        return Top('offset call')

    def m_apply(self, I, x):
        return self.call(I, [x], {})


def is_offset(v):
    return isinstance(v, OffVal) or (
        isinstance(v, InstVal) and any(
            isinstance(b, Ext) and b.path.split('.')[-1] in
            ('Easter', 'DateOffset', 'Day', 'BaseOffset')
            for b in v.cls.ext_bases()))


def neg_offset(I, o):
    if isinstance(o, OffVal):
        return OffVal(o.kind_, -o.n, **o.kw)
    return Top('negated offset')


def _mk_off(kind, names=()):
    def f(I, *args, **kw):
        n = 1
        pos = ('n', 'normalize') + tuple(names)
        for k, v in zip(pos, args):
            kw[k] = v
        n = kw.pop('n', 1)
        kw.pop('normalize', None)
        f = I.ctx.get('timedelta')
        if kind == 'DateOffset' and n == 1 and f is not None and \
                not set(kw) - set(_UNITS.values()):
            r = f(I, kw)
            if r is not None:
                return r
        if kind in TICKS:
            if f is not None:
                r = f(I, {TICKS[kind]: n})
                if r is not None:
                    return r
            return _td(I, {TICKS[kind]: n}, None)
        if not isinstance(n, int):
            return Top('offset n')
        if any(getattr(v, 'elementwise', False) for v in kw.values()):
            I.throw('TypeError', 'array argument of an offset')
        return OffVal(kind, n, **kw)
    return f


TICKS = dict(Hour='hours', Minute='minutes', Second='seconds')
for _p in ('pandas.tseries.offsets.', 'pandas.tseries.holiday.', 'pandas.'
           'offsets.'):
    for _k in TICKS:
        M[_p + _k] = _mk_off(_k)
    M[_p + 'Day'] = _mk_off('Day')
    M[_p + 'BDay'] = M[_p + 'BusinessDay'] = _mk_off('BDay')
    M[_p + 'Easter'] = _mk_off('Easter')
    M[_p + 'DateOffset'] = _mk_off('DateOffset')
    M[_p + 'WeekOfMonth'] = _mk_off('WeekOfMonth', ('week', 'weekday'))
    M[_p + 'LastWeekOfMonth'] = _mk_off('LastWeekOfMonth', ('weekday',))
M['pandas.DateOffset'] = _mk_off('DateOffset')


@model('dateutil.relativedelta.relativedelta')
def _reldelta(I, *a, **kw):
    if a:
        return Top('relativedelta')
    return OffVal('DateOffset', 1, **kw)


def gregorian_easter(y):
    a = y % 19
    b, c = divmod(y, 100)
    d, e = divmod(b, 4)
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = divmod(c, 4)
    m = (32 + 2 * e + 2 * i - h - k) % 7
    n = (a + 11 * h + 22 * m) // 451
    mo, da = divmod(h + m - 7 * n + 114, 31)
    return dtm.datetime(y, mo, da + 1)


def orthodox_easter(y):
    a, b, c = y % 4, y % 7, y % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    mo, da = divmod(d + e + 114, 31)
    return dtm.datetime(y, mo, da + 1) + dtm.timedelta(
        days=y // 100 - y // 400 - 2)


C['dateutil.easter.EASTER_JULIAN'] = 1
C['dateutil.easter.EASTER_ORTHODOX'] = 2
C['dateutil.easter.EASTER_WESTERN'] = 3


@model('dateutil.easter.easter')
def _easter(I, year, method=3):
    if isinstance(year, int) and method in (2, 3):
        d = gregorian_easter(year) if method == 3 else orthodox_easter(year)
        return TS(d, None, 'date')
    return Top('easter')


def _dim(y, m):
    return ((dtm.datetime(y + (m == 12), m % 12 + 1, 1)) - ONE).day


def _addmonths(d, k):
    y, m = divmod(d.year * 12 + d.month - 1 + k, 12)
    m += 1
    return d.replace(year=y, month=m, day=min(d.day, _dim(y, m)))


def _reldelta_apply(d, kw, sign):
    kw = dict(kw)
    rep = {k: kw.pop(k) for k in ('year', 'month', 'day', 'hour', 'minute',
                                  'second', 'microsecond') if k in kw}
    wd = kw.pop('weekday', None)
    months = 12 * kw.pop('years', 0) + kw.pop('months', 0)
    td = dtm.timedelta(**{k: kw.pop(k) for k in list(kw) if k in (
        'days', 'weeks', 'hours', 'minutes', 'seconds', 'microseconds')})
    kw.pop('nanoseconds', None)
    if kw:
        return None
    # relativedelta: absolute fields first, then relative, then weekday
    if 'year' in rep or 'month' in rep:
        y, m = rep.get('year', d.year), rep.get('month', d.month)
        d = d.replace(year=y, month=m, day=min(d.day, _dim(y, m)))
    if months:
        d = _addmonths(d, sign * months)
    if 'day' in rep:
        d = d.replace(day=min(rep['day'], _dim(d.year, d.month)))
    for k in ('hour', 'minute', 'second', 'microsecond'):
        if k in rep:
            d = d.replace(**{k: rep[k]})
    d = d + sign * td
    if wd is not None:
        if isinstance(wd, int):
            wd = WkDay(wd)
        if not isinstance(wd, WkDay):
            return None
        nth = wd.n or 1
        jump = (abs(nth) - 1) * 7
        if nth > 0:
            jump += (7 - d.weekday() + wd.i) % 7
        else:
            jump += (d.weekday() - wd.i) % 7
            jump *= -1
        d = d + ONE * jump
    return d


def apply_offset(I, o, ts):
    if isinstance(o, Top):
        return o
    if isinstance(o, InstVal):
        m = o._method('apply')
        if m is None:
            return Top('offset without apply')
        r = I.call(BoundMethod(o, m), [TS(ts.dt, ts.tz)])
        if isinstance(r, TS):
            return TS(r.dt, ts.tz if r.tz is None else r.tz)
        return r if isinstance(r, Top) else Top('offset result')
    d, n, kw = ts.dt, o.n, o.kw
    if any(isinstance(v, Top) for v in kw.values()):
        return Top('offset argument')
    if o.kind_ == 'Day':
        d = d + ONE * n
    elif o.kind_ == 'DateOffset':
        if not kw:
            d = d + ONE * n
        else:
            for _ in range(abs(n)):
                d = _reldelta_apply(d, kw, 1 if n > 0 else -1)
                if d is None:
                    return Top('DateOffset')
    elif o.kind_ == 'Easter':
        e = gregorian_easter(d.year)
        k = n
        if k >= 0 and d < e:
            k -= 1
        elif k < 0 and d > e:
            k += 1
        e = gregorian_easter(d.year + k)
        d = d.replace(year=e.year, month=e.month, day=e.day)
    elif o.kind_ in ('WeekOfMonth', 'LastWeekOfMonth'):
        wd = kw.get('weekday', 0)
        if isinstance(wd, WkDay):
            wd = wd.i

        def offday(x):
            if o.kind_ == 'WeekOfMonth':
                first = dtm.datetime(x.year, x.month, 1)
                return 1 + (wd - first.weekday()) % 7 + kw.get('week', 0) * 7
            last = dtm.datetime(x.year, x.month, _dim(x.year, x.month))
            return last.day - (last.weekday() - wd) % 7
        cd = offday(d)
        months = n
        if months > 0 and cd > d.day:
            months -= 1
        elif months <= 0 and cd < d.day:
            months += 1
        s = _addmonths(d.replace(day=1), months)
        d = s + ONE * (offday(s) - 1)
    elif o.kind_ == 'BDay':
        k = abs(n)
        sg = 1 if n > 0 else -1
        if n == 0:
            while d.weekday() > 4:
                d += ONE
        while k:
            d += ONE * sg
            if d.weekday() < 5:
                k -= 1
    else:
        return Top('offset %s' % o.kind_)
    return TS(d, ts.tz)


def _ident(I, f):
    return f


M['pandas._libs.tslibs.offsets.apply_wraps'] = _ident
M['pandas.tseries.offsets.apply_wraps'] = _ident


@model('pandas._libs.tslibs.conversion.localize_pydatetime',
       'pandas.tslib._localize_pydatetime')
def _locpy(I, d, tz):
    if isinstance(d, TS):
        return TS(d.dt, tz, d.py)
    return Top('localize')


# offset classes derived in the package

def _off_new(I, inst, args, kw):
    inst.d['n'] = args[0] if args else kw.get('n', 1)
    inst.d['normalize'] = False


def _off_attr(I, inst, name):
    if name == 'n':
        return inst.d.get('n', 1)
    if name == 'normalize':
        return False
    if name == '__init__':
        return BoundModel(inst, '__init__', lambda I, *a, **k:
                          _off_new(I, inst, a, k))
    return Top('offset attribute %s' % name)


def _off_binop(I, inst, op, other, refl):
    if op == '+' and isinstance(other, TS):
        return apply_offset(I, inst, other)
    if op == '+' and isinstance(other, DTI):
        return other.binop(I, '+', inst)
    return NotImplemented


for _p in ('pandas.tseries.offsets.Easter', 'pandas.tseries.offsets.'
           'DateOffset', 'pandas.DateOffset',
           'pandas.tseries.holiday.Easter'):
    M[_p + '#new'] = _off_new
    M[_p + '#attr'] = _off_attr
    M[_p + '#super'] = _off_attr
    M[_p + '#binop'] = _off_binop


# --------------------------------------------------------------------------
# Hebrew calendar (pyluach)


def _heb_elapsed(y):
    months = (235 * y - 234) // 19
    parts = 12084 + 13753 * months
    day = months * 29 + parts // 25920
    if (3 * (day + 1)) % 7 < 3:
        day += 1
    return day


def _heb_newyear_fixed(y):
    e0, e1, e2 = (_heb_elapsed(y - 1), _heb_elapsed(y), _heb_elapsed(y + 1))
    corr = 0
    if e2 - e1 == 356:
        corr = 2
    elif e1 - e0 == 382:
        corr = 1
    return -1373428 + e1 + corr        # R.D. of 1 Tishrei


def heb_leap(y):
    return (7 * y + 1) % 19 < 7


def heb_month_len(y, m):
    if m in (2, 4, 6, 10, 13):
        return 29
    if m == 12 and not heb_leap(y):
        return 29
    ylen = _heb_newyear_fixed(y + 1) - _heb_newyear_fixed(y)
    if m == 8 and ylen not in (355, 385):
        return 29
    if m == 9 and ylen in (353, 383):
        return 29
    return 30


def heb_fixed(y, m, d):
    r = _heb_newyear_fixed(y)
    last = 13 if heb_leap(y) else 12
    if m < 7:
        ms = list(range(7, last + 1)) + list(range(1, m))
    else:
        ms = list(range(7, m))
    for k in ms:
        r += heb_month_len(y, k)
    return r + d - 1


def heb_to_date(y, m, d):
    return dtm.date.fromordinal(heb_fixed(y, m, d) + 1)


def date_to_heb_year(d):
    o = d.toordinal()
    y = d.year + 3761
    while heb_to_date(y, 7, 1).toordinal() > o:
        y -= 1
    return y


class HebDate(AbsVal):
    def __init__(self, y, m, d):
        self.y, self.m, self.d = y, m, d

    def a_year(self, I):
        return self.y

    def a_month(self, I):
        return self.m

    def a_day(self, I):
        return self.d

    def _date(self):
        return heb_to_date(self.y, self.m, self.d)

    def m_to_greg(self, I):
        return GregDate(self._date())

    def m_to_pydate(self, I):
        return GregDate(self._date()).m_to_pydate(I)

    def m_weekday(self, I):
        return GregDate(self._date()).m_weekday(I)

    def binop(self, I, op, other):
        if isinstance(other, int) and op in '+-':
            d = self._date() + ONE * (other if op == '+' else -other)
            return HebOrd(d)
        return NotImplemented

    def truth(self, I):
        return True


class GregDate(AbsVal):
    def __init__(self, d):
        self.d = d

    def a_year(self, I):
        return self.d.year

    def a_month(self, I):
        return self.d.month

    def a_day(self, I):
        return self.d.day

    def m_weekday(self, I):
        return self.d.isoweekday() % 7 + 1

    def m_isoweekday(self, I):
        return self.d.isoweekday()

    def m_to_pydate(self, I):
        return TS(dtm.datetime(self.d.year, self.d.month, self.d.day), None,
                  'date')

    def m_to_greg(self, I):
        return self

    def m_to_heb(self, I):
        return HebOrd(self.d)

    def binop(self, I, op, other):
        if isinstance(other, int) and op in '+-':
            return type(self)(self.d + ONE * (other if op == '+' else -other))
        if isinstance(other, GregDate) and op == '-':
            return abs((self.d - other.d).days)
        return NotImplemented

    def compare(self, I, op, other):
        if isinstance(other, GregDate) and op in CMP:
            return CMP[op](self.d, other.d)
        return NotImplemented

    def truth(self, I):
        return True


class HebOrd(GregDate):
    """A Hebrew date known by its day; only its year is read back."""

    def a_year(self, I):
        return date_to_heb_year(self.d)

    def a_month(self, I):
        return Top('Hebrew month')

    def a_day(self, I):
        return Top('Hebrew day')

    def m_to_greg(self, I):
        return GregDate(self.d)

    def m_to_heb(self, I):
        return self


class HebYear(AbsVal):
    def __init__(self, y):
        self.y = y

    def a_year(self, I):
        return self.y

    def a_leap(self, I):
        return heb_leap(self.y)

    def binop(self, I, op, other):
        if isinstance(other, int) and op in '+-':
            return HebYear(self.y + (other if op == '+' else -other))
        return NotImplemented

    def truth(self, I):
        return True


@model('pyluach.dates.HebrewDate')
def _hebdate(I, y, m, d):
    if not all(isinstance(x, int) for x in (y, m, d)):
        return Top('HebrewDate')
    last = 13 if heb_leap(y) else 12
    if not 1 <= m <= last or not 1 <= d <= heb_month_len(y, m):
        I.throw('ValueError', 'invalid Hebrew date')
    return HebDate(y, m, d)


@model('pyluach.dates.GregorianDate')
def _gregdate(I, y, m, d):
    if not all(isinstance(x, int) for x in (y, m, d)):
        return Top('GregorianDate')
    try:
        return GregDate(dtm.date(y, m, d))
    except ValueError as e:
        I.throw('ValueError', str(e))


@model('pyluach.hebrewcal.Year')
def _hebyear(I, y):
    return HebYear(y) if isinstance(y, int) else Top('Year')


# --------------------------------------------------------------------------
# holidays


class HolidayVal(AbsVal):
    types = ('pandas.tseries.holiday.Holiday',)

    def __init__(self, I, name, year=None, month=None, day=None, offset=None,
                 observance=None, start_date=None, end_date=None,
                 days_of_week=None):
        if offset is not None and observance is not None:
            I.throw('NotImplementedError',
                    'Cannot use both offset and observance.')
        self.name, self.year, self.month, self.day = name, year, month, day
        self.offset, self.observance = offset, observance
        self.start_date = None if start_date is None else \
            _Timestamp(I, start_date)
        self.end_date = None if end_date is None else _Timestamp(I, end_date)
        if days_of_week is not None and not isinstance(days_of_week,
                                                       (tuple, Top)):
            I.throw('AssertionError', 'days_of_week must be a tuple')
        self.days_of_week = days_of_week
        self.born = I.where()
        self.owner = I.phase
        self.cache = {}

    def __repr__(self):
        return 'Holiday(%s)' % (self.name,)

    def setattr(self, I, name, value):
        I.write(self, 'attribute %s' % name)
        if name in ('start_date', 'end_date') and value is not None:
            value = _Timestamp(I, value)
        setattr(self, name, value)
        self.cache = {}

    def truth(self, I):
        return True

    def a_name(self, I):
        return self.name

    def a_year(self, I):
        return self.year

    def a_month(self, I):
        return self.month

    def a_day(self, I):
        return self.day

    def a_offset(self, I):
        return self.offset

    def a_observance(self, I):
        return self.observance

    def a_start_date(self, I):
        return self.start_date

    def a_end_date(self, I):
        return self.end_date

    def a_days_of_week(self, I):
        return self.days_of_week

    def apply_rule(self, I, idx):
        """idx: DTI or TS"""
        if self.observance is not None:
            if isinstance(idx, TS):
                I.throw('AttributeError', 'map')
            return idx.m_map(I, self.observance)
        if self.offset is not None:
            offs = self.offset.items if isinstance(self.offset, ListVal) \
                else [self.offset]
            for o in offs:
                idx = I.binop('+', idx, o)
        return idx

    def m__apply_rule(self, I, dates):
        return self.apply_rule(I, dates)

    def compute(self, I, start, end):
        """datetimes of the holiday in [start, end] (naive), or Top"""
        if self.year is not None:
            if not all(isinstance(x, int) for x in
                       (self.year, self.month, self.day)):
                return Top('holiday date')
            return [dtm.datetime(self.year, self.month, self.day)]
        if self.month is None or self.day is None:
            I.throw('TypeError', 'holiday without a month or day')
        if not isinstance(self.month, int) or not isinstance(self.day, int):
            return Top('holiday month/day')
        s, e = start, end
        for x in (self.start_date, self.end_date):
            if x is not None and not isinstance(x, TS):
                return Top('holiday bounds')
        if self.start_date is not None:
            s = self.start_date.dt
        if self.end_date is not None:
            e = self.end_date.dt
        ref = []
        # reference dates far outside the asked window cannot land in it
        lo = max(s.year - 1, start.year - 2)
        hi = min(e.year + 1, end.year + 2)
        try:
            first = dtm.datetime(max(s.year - 1, 1), self.month, self.day)
        except ValueError as e:
            I.throw('ValueError', str(e))
        cur = first
        while cur.year <= hi:
            if cur.year >= lo:
                ref.append(cur)
            cur = _addmonths(cur, 12)
        if not ref:
            return []
        r = self.apply_rule(I, DTI(I, ref))
        if not isinstance(r, DTI):
            return r if isinstance(r, Top) else Top('holiday rule')
        ds = [d for d in r.data if d is not None]
        if self.days_of_week is not None:
            if isinstance(self.days_of_week, Top):
                return self.days_of_week
            ds = [d for d in ds if d.weekday() in self.days_of_week]
        fs, fe = start, end
        if self.start_date is not None:
            fs = max(fs, self.start_date.dt)
        if self.end_date is not None:
            fe = min(fe, self.end_date.dt)
        return [d for d in ds if fs <= d <= fe]

    def m_dates(self, I, start, end, return_name=False):
        a, b = _Timestamp(I, start), _Timestamp(I, end)
        if not isinstance(a, TS) or not isinstance(b, TS):
            return Top('dates')
        r = self.compute(I, a.dt, b.dt)
        if isinstance(r, Top):
            return r
        return DTI(I, r, a.tz)


@model('pandas.tseries.holiday.Holiday')
def _Holiday(I, *args, **kw):
    names = ('name', 'year', 'month', 'day', 'offset', 'observance',
             'start_date', 'end_date', 'days_of_week')
    for k, v in zip(names, args):
        kw[k] = v
    for k in kw:
        if k not in names:
            I.throw('TypeError', 'unexpected keyword %s' % k)
    if 'name' not in kw:
        I.throw('TypeError', 'missing name')
    return HolidayVal(I, **kw)


def _lib_holidays(I):
    """The ready-made holidays of pandas.tseries.holiday."""
    P = 'pandas.tseries.holiday.'
    mk = lambda n, **k: HolidayVal(I, n, **k)
    wd = lambda i, n: OffVal('DateOffset', 1, weekday=WkDay(i, n))
    L = lambda *x: ListVal(I, x)
    out = {
        P + 'GoodFriday': mk('Good Friday', month=1, day=1,
                             offset=L(OffVal('Easter'), OffVal('Day', -2))),
        P + 'EasterMonday': mk('Easter Monday', month=1, day=1,
                               offset=L(OffVal('Easter'), OffVal('Day', 1))),
        P + 'USMemorialDay': mk('Memorial Day', month=5, day=31,
                                offset=wd(0, -1)),
        P + 'USLaborDay': mk('Labor Day', month=9, day=1, offset=wd(0, 1)),
        P + 'USColumbusDay': mk('Columbus Day', month=10, day=1,
                                offset=wd(0, 2)),
        P + 'USThanksgivingDay': mk('Thanksgiving', month=11, day=1,
                                    offset=wd(3, 4)),
        P + 'USMartinLutherKingJr': mk(
            'Martin Luther King Jr. Day', month=1, day=1,
            start_date=TS(dtm.datetime(1986, 1, 1)), offset=wd(0, 3)),
        P + 'USPresidentsDay': mk('Presidents Day', month=2, day=1,
                                  offset=wd(0, 3)),
    }
    return out


def _obs(name):
    def wrap(f):
        def g(I, dt):
            if isinstance(dt, DTI):
                I.throw('TypeError', 'index is not a date')
            if not isinstance(dt, TS):
                return Top(name)
            return f(dt)
        M['pandas.tseries.holiday.' + name] = g
        return f
    return wrap


def _sh(dt, n):
    return dt.shift(ONE * n)


@_obs('next_monday')
def _o1(dt):
    return _sh(dt, {5: 2, 6: 1}.get(dt.dt.weekday(), 0))


@_obs('next_monday_or_tuesday')
def _o2(dt):
    return _sh(dt, {5: 2, 6: 2, 0: 1}.get(dt.dt.weekday(), 0))


@_obs('previous_friday')
def _o3(dt):
    return _sh(dt, {5: -1, 6: -2}.get(dt.dt.weekday(), 0))


@_obs('sunday_to_monday')
def _o4(dt):
    return _sh(dt, {6: 1}.get(dt.dt.weekday(), 0))


@_obs('weekend_to_monday')
def _o5(dt):
    return _sh(dt, {6: 1, 5: 2}.get(dt.dt.weekday(), 0))


@_obs('nearest_workday')
def _o6(dt):
    return _sh(dt, {5: -1, 6: 1}.get(dt.dt.weekday(), 0))


@_obs('next_workday')
def _o7(dt):
    dt = _sh(dt, 1)
    while dt.dt.weekday() > 4:
        dt = _sh(dt, 1)
    return dt


@_obs('previous_workday')
def _o8(dt):
    dt = _sh(dt, -1)
    while dt.dt.weekday() > 4:
        dt = _sh(dt, -1)
    return dt


@_obs('before_nearest_workday')
def _o9(dt):
    return _o8(_o6(dt))


@_obs('after_nearest_workday')
def _o10(dt):
    return _o7(_o6(dt))


# AbstractHolidayCalendar as a base class of the package's HolidayCalendar

_AHC = 'pandas.tseries.holiday.AbstractHolidayCalendar'


def _ahc_init(I, inst):
    def init(I, name=None, rules=None):
        inst.d['name'] = name
        if rules is not None:
            inst.d['rules'] = rules
    return BoundModel(inst, '__init__', init)


def calendar_dates(I, inst, start, end):
    """Sorted datetimes of a holiday calendar instance (or Top)."""
    rules = inst.d.get('rules')
    if rules is None:
        return []
    it = I.iterate(rules)
    if not isinstance(it, list):
        return Top('rules')
    out = set()
    for r in it:
        if not isinstance(r, HolidayVal):
            return Top('rule %r' % (r,))
        ds = r.compute(I, start, end)
        if isinstance(ds, Top):
            return ds
        out.update(d for d in ds if start <= d <= end)
    return sorted(out)


def _ahc_attr(I, inst, name):
    if name == 'holidays':
        def holidays(I, start=None, end=None, return_name=False):
            a = HOLIDAY_START if start is None else to_dt(start)
            b = HOLIDAY_END if end is None else to_dt(end)
            if a is None or b is None:
                return Top('holidays()')
            r = calendar_dates(I, inst, a, b)
            if isinstance(r, Top):
                return r
            tz = start.tz if isinstance(start, TS) else None
            return DTI(I, r, tz)
        return BoundModel(inst, 'holidays', holidays)
    if name == 'rules':
        return ListVal(I, [])
    if name == '__init__':
        return _ahc_init(I, inst)
    if name == 'name':
        return inst.cls.name
    return Top('calendar attribute %s' % name)


def _ahc_new(I, inst, args, kw):
    names = ('name', 'rules')
    d = dict(zip(names, args))
    d.update(kw)
    inst.d['name'] = d.get('name')
    if d.get('rules') is not None:
        inst.d['rules'] = d['rules']


M[_AHC + '#attr'] = _ahc_attr
M[_AHC + '#super'] = _ahc_attr
M[_AHC + '#new'] = _ahc_new


def _ahc_direct(I, name=None, rules=None):
    from .core import ClassVal, InstVal
    c = ClassVal('AbstractHolidayCalendar', [Ext(_AHC)], {}, None)
    i = InstVal(I, c)
    i.d['name'] = name
    if rules is not None:
        i.d['rules'] = rules
    return i


M[_AHC] = _ahc_direct


def is_holiday_calendar(v):
    return isinstance(v, InstVal) and any(
        isinstance(b, Ext) and b.path == _AHC for b in v.cls.ext_bases())


class CBD(AbsVal):
    """CustomBusinessDay with its provenance."""
    types = ('pandas.tseries.offsets.CustomBusinessDay',)

    def __init__(self, kw):
        self.kw = kw

    def truth(self, I):
        return True


@model('pandas.tseries.offsets.CustomBusinessDay',
       'pandas.tseries.offsets.CDay')
def _CBD(I, n=1, normalize=False, weekmask='Mon Tue Wed Thu Fri',
         holidays=None, calendar=None, offset=None):
    return CBD(dict(n=n, weekmask=weekmask, holidays=holidays,
                    calendar=calendar))
