"""Folding of the calendar definitions: what every shipped calendar class says
about its sessions, hours and holidays, computed from the source."""
import datetime as dtm

from .core import (Interp, Top, ListVal, DictVal, ClassVal, InstVal, PyExc,
                   Undecided, AnalysisError, FuncVal, Ext, load_package,
                   Rep, StrMethod)
from . import stdmodels, pdconst
from .pdconst import (TS, DTI, D64, NDArr, HolidayVal, TimeVal, TZ, CBD,
                      calendar_dates, is_holiday_calendar, to_dt, NowTS)

PKG = 'trading_calendars'
WD = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')


def make_interp(root, now=(2020, 10), **ctx):
    mods = load_package(root, PKG)
    I = Interp(mods, stdmodels.M, dict(stdmodels.C))
    I.consts.update(pdconst._lib_holidays(I))
    I.ctx['now_year'], I.ctx['now_month'] = now
    I.ctx.update(ctx)
    I.begin_path()
    return I


class Facts(object):
    """Folded definition of one calendar class.  Each field holds a folded
    value or a Top saying why it could not be folded."""

    FIELDS = ('name', 'tz', 'open_times', 'close_times', 'break_start_times',
              'break_end_times', 'open_offset', 'close_offset', 'weekmask',
              'regular_holidays', 'adhoc_holidays', 'special_opens',
              'special_opens_adhoc', 'special_closes',
              'special_closes_adhoc', 'day')

    def __init__(self, I, cls):
        self.I, self.cls = I, cls
        self.inst = InstVal(I, cls)
        self.v = {}
        self.err = {}

    def where(self):
        return '%s:%s' % (self.cls.module.path, self.cls.name)

    def get(self, f):
        if f not in self.v:
            I = self.I
            try:
                n = len(I.soft)
                r = I.getattr(self.inst, f)
                if len(I.soft) > n:
                    why = I.soft[n]
                    del I.soft[n:]
                    r = Top(why)
            except PyExc as e:
                r = Top('raises %s' % e.name())
                self.err[f] = e
            except Undecided as e:
                r = Top(str(e))
            self.v[f] = r
        return self.v[f]

    # -- derived

    def closures(self, start, end):
        """(set of dates closed by holidays, None) or (None, why)"""
        day = self.get('day')
        if isinstance(day, CBD):
            reg, adhoc = day.kw['calendar'], day.kw['holidays']
        else:
            return None, 'day: %r' % (day,)
        a = [] if adhoc is None else adhoc_set(self.I, adhoc, True)
        if isinstance(a, Top):
            return None, a.why
        r = []
        if reg is not None:
            r = rule_set(self.I, reg, start, end)
            if isinstance(r, Top):
                return None, r.why
        return {d.date() for d in list(a) + list(r) if start <= d <= end}, None

    def mask(self):
        """tuple of 7 bools or None"""
        day = self.get('day')
        m = day.kw['weekmask'] if isinstance(day, CBD) else None
        return parse_mask(m)

    def sessions(self, start, end):
        c, why = self.closures(start, end)
        if c is None:
            return None, why
        m = self.mask()
        if m is None:
            return None, 'weekmask'
        out = []
        d = start.date()
        while d <= end.date():
            if m[d.weekday()] and d not in c:
                out.append(d)
            d += pdconst.ONE
        return out, None

    def special(self, which, start, end):
        """list of (date, time, origin) for which in opens/closes, or Top"""
        I = self.I
        out = []
        reg = self.get('special_' + which)
        adh = self.get('special_%s_adhoc' % which)
        for v, kind in ((reg, 'rule'), (adh, 'adhoc')):
            it = I.iterate(v)
            if not isinstance(it, list):
                return Top('special_%s' % which)
            for pair in it:
                p = I.iterate(pair)
                if not isinstance(p, list) or len(p) != 2 or \
                        not isinstance(p[0], TimeVal):
                    return Top('special_%s entry' % which)
                if kind == 'rule':
                    ds = rule_set(I, p[1], start, end)
                else:
                    ds = adhoc_set(I, p[1])
                if isinstance(ds, Top):
                    return ds
                for d in sorted(set(ds)):
                    if start <= d <= end:
                        out.append((d.date(), p[0].t, kind))
        return out


def parse_mask(m):
    if isinstance(m, str):
        s = m.replace(' ', '')
        if len(s) == 7 and set(s) <= set('01'):
            return tuple(c == '1' for c in s)
        names = [x[:3].title() for x in m.split()]
        if names and all(n in WD for n in names):
            return tuple(w in names for w in WD)
    if isinstance(m, (ListVal, tuple)):
        it = m.items if isinstance(m, ListVal) else m
        if len(it) == 7 and all(x in (0, 1) for x in it):
            return tuple(bool(x) for x in it)
    return None


def adhoc_set(I, v, local=False):
    it = I.iterate(v)
    if not isinstance(it, list):
        return v if isinstance(v, Top) else Top('ad hoc dates %r' % (v,))
    out = []
    for x in it:
        # a business-day holiday is the date on the wall of its own zone
        d = x.dt if local and isinstance(x, TS) else to_dt(x)
        if d is None:
            return Top('ad hoc date %r' % (x,))
        out.append(dtm.datetime(d.year, d.month, d.day))
    return out


def rule_set(I, v, start, end):
    if isinstance(v, InstVal) and is_holiday_calendar(v):
        try:
            n = len(I.soft)
            r = calendar_dates(I, v, start, end)
            if len(I.soft) > n:
                why = I.soft[n]
                del I.soft[n:]
                return Top(why)
            return r
        except PyExc as e:
            if len(I.soft) > n or e.model_gap() or e.name() == '?':
                del I.soft[n:]
                return Top('may raise %s' % e.name())
            return Top('raises %s' % e.name())
        except Undecided as e:
            return Top(str(e))
    return v if isinstance(v, Top) else Top('holiday calendar %r' % (v,))


def find_registry(I):
    """(factories {name: class}, aliases {alias: name}) of the default global
    dispatcher, found by content: the module-level tables of name -> calendar
    class and name -> name."""
    tc = base_class(I)
    fac, ali = {}, {}
    for m in sorted(I.modules):
        for k, v in I.modules[m].env.items():
            if isinstance(v, DictVal) and v.keylist():
                ps = list(v.d.values())
                ks = [kk for kk, _ in ps]
                vs = [vv for _, vv in ps]
                if all(isinstance(x, str) for x in ks):
                    if all(isinstance(x, ClassVal) and x.subclass_of(tc)
                           for x in vs):
                        fac.update(zip(ks, vs))
                    elif all(isinstance(x, str) for x in vs) and \
                            m.endswith('calendar_utils'):
                        ali.update(zip(ks, vs))
    return fac, ali


def base_class(I):
    m = I.import_module(PKG)
    c = m.env.get('TradingCalendar')
    if not isinstance(c, ClassVal):
        raise AnalysisError('anchor missing: trading_calendars.'
                            'TradingCalendar')
    return c


def all_calendar_classes(I):
    tc = base_class(I)
    out = []
    for m in sorted(I.modules):
        I.import_module(m)
        for k, v in I.modules[m].env.items():
            if isinstance(v, ClassVal) and v.subclass_of(tc) and \
                    v.module is I.modules[m] and v not in out:
                out.append(v)
    return out
