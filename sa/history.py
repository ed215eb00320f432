"""A calendar's days and hours over a range of dates, as comparable data."""
import datetime as dtm

from .core import Top
from .pdconst import TZ, TimeVal, to_dt

TIMES = ('open_times', 'break_start_times', 'break_end_times', 'close_times')


def eras(I, v):
    """[(start or None, time)], or Top; None if there are none"""
    if v is None:
        return None
    it = I.iterate(v)
    if not isinstance(it, list):
        return Top('eras %r' % (v,))
    out = []
    for p in it:
        q = I.iterate(p)
        if not isinstance(q, list) or len(q) != 2:
            return Top('era %r' % (p,))
        d, t = q
        if d is not None:
            d = to_dt(d)
            if d is None:
                return Top('era start %r' % (q[0],))
        if not isinstance(t, TimeVal):
            return Top('era time %r' % (t,))
        out.append((d, t.t))
    return out


def at(es, day):
    """the time in force on a date: latest era starting on or before it"""
    r = None
    for d, t in es or []:
        if d is None or d <= day:
            r = t
    return r


def hm(t):
    if t is None:
        return None
    return t.strftime('%H:%M') if not t.second else t.strftime('%H:%M:%S')


def hours(I, f, lo, hi):
    """[[first date, open, break start, break end, close]] or Top"""
    es = {}
    for p in TIMES:
        es[p] = eras(I, f.get(p))
        if isinstance(es[p], Top):
            return es[p]
    cuts = sorted({lo} | {d for p in TIMES for d, _ in es[p] or []
                          if d is not None and lo < d <= hi})
    out = []
    for c in cuts:
        row = [hm(at(es[p], c)) for p in TIMES]
        if not out or out[-1][1:] != row:
            out.append([str(c.date())] + row)
    return out


def days(f, lo, hi):
    """(closed trading weekdays, late opens, early closes) with
    {date: time} for the latter two, or Top"""
    m = f.mask()
    cl, why = f.closures(lo, hi)
    if m is None or cl is None:
        return Top(why or 'weekdays')
    closed = {d for d in cl if m[d.weekday()]}
    out = [closed]
    for w in ('opens', 'closes'):
        r = f.special(w, lo, hi)
        if isinstance(r, Top):
            return r
        out.append({d: hm(t) for d, t, _ in r
                    if m[d.weekday()] and d not in closed})
    return tuple(out)


def pack(ds):
    """{year: 'MMDD MMDD'}; with times, 'MMDD@HH:MM'"""
    out = {}
    for d in sorted(ds):
        s = d.strftime('%m%d')
        if isinstance(ds, dict):
            s += '@' + ds[d]
        out.setdefault(str(d.year), []).append(s)
    return {y: ' '.join(v) for y, v in out.items()}


def unpack(p):
    out = {}
    for y, v in p.items():
        for s in v.split():
            s, _, t = s.partition('@')
            out[dtm.date(int(y), int(s[:2]), int(s[2:]))] = t
    return out


def record(I, f, lo, hi):
    d = days(f, lo, hi)
    h = hours(I, f, lo, hi)
    tz = f.get('tz')
    if isinstance(d, Top) or isinstance(h, Top) or not isinstance(tz, TZ):
        return Top('%r %r %r' % (d if isinstance(d, Top) else '',
                                 h if isinstance(h, Top) else '', tz))
    return {'from': str(lo.date()), 'to': str(hi.date()),
            'weekdays': ''.join('01'[bool(x)] for x in f.mask()),
            'zone': tz.name,
            'offsets': [f.get('open_offset'), f.get('close_offset')],
            'hours': h, 'closed': pack(d[0]), 'late': pack(d[1]),
            'early': pack(d[2])}
