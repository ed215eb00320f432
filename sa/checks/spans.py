"""C25, C26: the span a calendar covers unless told otherwise, and the hours
in which orders can execute."""
import datetime as dtm

from ..core import Top, InstVal, AnalysisError, Undecided
from ..pdconst import TS, NowTS, UTCZ, TZ, CBD, TimeVal, to_utc, from_utc
from .definitions import Defs, Reached, mixed, shown, day, mins

YEAR = dtm.timedelta(days=365)
# first day covered when no start is named (all others: 1990-01-01)
STARTS = {'XTKS': dtm.datetime(2000, 1, 1),
          'us_futures': dtm.datetime(2000, 1, 1)}
START = dtm.datetime(1990, 1, 1)
# named bounds: before, between and after every default
SPANS = ((day(1971, 2, 4), day(1975, 7, 1)), (day(1994, 8, 9), day(1996, 1, 2)),
         (day(2004, 3, 1), day(2006, 5, 1)), (day(2038, 5, 6), day(2045, 6, 7)))


def is_start(v, want):
    if isinstance(v, TS):
        return v.utc() == want
    return None if isinstance(v, Top) else False


def is_end(v):
    if isinstance(v, NowTS):
        if v.delta is None:
            return None
        if v.delta != YEAR:
            return False
        return True if v.tz in (UTCZ, None) else None
    return None if isinstance(v, Top) else False


def c25(known):
    D = Defs('C25', 'Every default calendar is constructed, with no bounds, '
             'one bound and both bounds, up to the point where its sessions '
             'are laid out; the bounds used there must be the named ones, '
             'the documented start, and a year after the clock.')
    c, I = D.c, D.I
    seen = {}

    def layout(I, start, end, periods, freq, tz, closed):
        if isinstance(freq, CBD):
            seen['b'] = start, end
            seen['bad'] = mixed(start, end)
            raise Reached('session index')
        return None
    cls, _ = D.registry_classes()
    D.stub = False
    I.ctx['date_range'] = layout
    n = 0
    for name, k in sorted(cls.items()):
        listed = k.lookup('precomputed_holidays')[1] is not None
        site = D.site(k, '__init__')
        want = STARTS.get(name, START)
        asks = [((), {})]
        for a, b in SPANS:
            asks += [((), {'start': a}), ((a,), {}), ((), {'end': b}),
                     ((a, b), {}), ((a,), {'end': b}),
                     ((), {'start': a, 'end': b})]
        for args, kw in asks:
            seen.clear()
            r = D.run(lambda: I.call(k, list(args), dict(kw)))
            key = '%s(%s)' % (name, ', '.join(
                [str(v.dt.date()) for v in args] +
                ['%s=%s' % (x, v.dt.date()) for x, v in sorted(kw.items())]))
            if 'b' not in seen:
                # without a session index nothing is covered
                c.decide('span', key, site, None if r[0] == '?' or (
                    r[0] == 'raise' and r[1].model_gap()) else False,
                    shown(r))
                continue
            s, e = seen['b']
            c.decide('span', key + ': bounds agree in zone', site,
                     not seen['bad'], '%r, %r' % (s, e))
            for v, nm, given, f in (
                    (s, 'start', args[0] if args else kw.get('start'),
                     lambda v: is_start(v, want)),
                    (e, 'end', args[1] if len(args) > 1 else kw.get('end'),
                     is_end)):
                if given is not None:
                    c.decide('named ' + nm, '%s %ss as asked' % (key, nm),
                             site, None if isinstance(v, Top) else
                             isinstance(v, TS) and v.utc() == given.dt,
                             repr(v))
                elif not listed:
                    c.decide('default ' + nm, '%s %s' % (
                        key, 'starts on %s' % want.date() if nm == 'start'
                        else 'ends a year from now'), site, f(v), repr(v))
        n += 1
    c.extra['calendars'] = n
    return D.finish(250, known)


# ---------------------------------------------------------------------- C26

# wall-clock minutes of day of the first and last executable minute
EXECUTION = {'us_futures': (6 * 60 + 31, 17 * 60)}


def instants(tz, t, off):
    """(session date, instant) of a listed time on days all over the year"""
    for y in (2005, 2014, 2023):
        for m in range(1, 13):
            for d in (3, 11, 12, 28):
                date = dtm.datetime(y, m, d)
                if date.weekday() > 4:
                    continue
                w = date + dtm.timedelta(days=off, hours=t.hour,
                                         minutes=t.minute)
                u = to_utc(w, tz)
                if u is not None:
                    yield date, u


def c26(known):
    D = Defs('C26', 'The execution hooks of every default calendar are '
             'interpreted on the opens and closes of sessions in every month '
             '(all eras, early closes and late opens included); the instant '
             'returned must be the documented executable one.')
    c, I = D.c, D.I
    n = 0
    for name, f in D.shipped().items():
        tz = f.get('tz')
        oo, co = f.get('open_offset'), f.get('close_offset')
        if not isinstance(tz, TZ) or not isinstance(oo, int) or \
                not isinstance(co, int):
            c.dunno('hours', '%s: %r %r %r' % (name, tz, oo, co))
            continue
        for which, off, fn in (('open', oo, 'execution_time_from_open'),
                               ('close', co, 'execution_time_from_close')):
            m, kc = f.cls.lookup(fn)
            if m is None:
                raise AnalysisError('anchor missing: calendar method %s' % fn)
            site = D.site(f.cls, fn)
            times = eras(I, f.get(which + '_times'))
            if times is None:
                c.dunno('hours', '%s: %s times' % (name, which))
                continue
            sp = f.special(which + 's', dtm.datetime(1990, 1, 1),
                           dtm.datetime(2030, 12, 31))
            special = [] if isinstance(sp, Top) else \
                sorted({t for _, t, _ in sp})
            for t in times + special:
                regular = t in times
                bad, und, ok = None, None, 0
                for date, u in instants(tz, t, off):
                    for v in (TS(u, UTCZ), TS(u, None)):
                        r = D.run(lambda: I.call(I.getattr(
                            InstVal(I, f.cls), fn), [v], {}))
                        good = right(r, v, u, date, tz, name, which, regular)
                        if good is None:
                            und = shown(r)
                        elif good is False:
                            bad = bad or 'on %s got %s for %s UTC' % (
                                date.date(), shown(r), u)
                        else:
                            ok += 1
                key = 'first executable minute' if which == 'open' else \
                    'last executable minute'
                key = '%s: %s of a session with %s %s%s' % (
                    name, key, which, t, '' if regular else ' (special)')
                c.decide('execution ' + which, key, site,
                         False if bad else None if und or not ok else True,
                         bad or und or '%d instants' % ok)
        n += 1
    c.extra['calendars'] = n
    return D.finish(80, known)


def eras(I, v):
    it = I.iterate(v)
    if not isinstance(it, list):
        return None
    out = []
    for x in it:
        p = I.iterate(x)
        if not isinstance(p, list) or len(p) != 2 or \
                not isinstance(p[1], TimeVal):
            return None
        out.append(p[1].t)
    return out


def right(r, v, u, date, tz, name, which, regular):
    if r[0] == '?':
        return None
    if r[0] == 'raise':
        return None if r[1].model_gap() else False
    got = r[1]
    if not isinstance(got, TS):
        return None if isinstance(got, Top) else False
    gu = got.utc()
    if (got.tz is None) != (v.tz is None):
        return False
    if name not in EXECUTION:
        return gu == u
    first, last = EXECUTION[name]
    if which == 'close' and not regular:
        # an hour before the early close, as on other days
        return gu == u - dtm.timedelta(hours=1)
    if which == 'open' and not regular:
        return None
    w = from_utc(gu, tz)
    return w is not None and w.date() == date.date() and \
        mins(w) == (first if which == 'open' else last) and w.second == 0
