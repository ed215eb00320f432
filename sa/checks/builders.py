"""C28: the builders of shared holidays.

Each builder is interpreted with no options and with every option alone and in
pairs, and the rule it returns is unrolled year by year."""
import ast
import datetime as dtm

from ..core import (Top, PyExc, Undecided, AnalysisError, FuncVal, ModuleVal)
from ..pdconst import HolidayVal, TS, gregorian_easter
from ..report import Check, REPO
from .. import fold
from ..fold import make_interp, PKG

MOD = PKG + '.common_holidays'
A, B = dtm.datetime(1940, 1, 1), dtm.datetime(2059, 12, 31)
YEARS = range(1940, 2060)


def fixed(m, d):
    return lambda: {dtm.datetime(y, m, d) for y in YEARS}


def easter(off):
    return lambda: {gregorian_easter(y) + dtm.timedelta(off) for y in YEARS}


def on(days, m, d):
    return lambda: {x for x in fixed(m, d)() if x.weekday() in days}


def friday_from(m, d):
    def f():
        out = set()
        for y in YEARS:
            x = dtm.datetime(y, m, d)
            while x.weekday() != 4:
                x += dtm.timedelta(1)
            out.add(x)
        return out
    return f


NAMED = {
    'new_years_day': fixed(1, 1), 'new_years_eve': fixed(12, 31),
    'epiphany': fixed(1, 6), 'anzac_day': fixed(4, 25),
    'european_labour_day': fixed(5, 1), 'holy_wednesday': easter(-4),
    'maundy_thursday': easter(-3), 'ascension_day': easter(39),
    'whit_monday': easter(50), 'corpus_christi': easter(60),
    'midsummer_eve': friday_from(6, 19),
    'saint_peter_and_saint_paul_day': fixed(6, 29),
    'assumption_day': fixed(8, 15), 'all_saints_day': fixed(11, 1),
    'immaculate_conception': fixed(12, 8), 'christmas_eve': fixed(12, 24),
    'christmas': fixed(12, 25), 'weekend_christmas': on((0, 1), 12, 27),
    'boxing_day': fixed(12, 26), 'weekend_boxing_day': on((0, 1), 12, 28),
}

PROBE = """
import pandas as pd


def one_day_later(dt):
    return dt + pd.Timedelta(days=1)


def unmoved(dt):
    return dt


def monday_later(dt):
    if dt.weekday() == 0:
        return dt + pd.Timedelta(days=1)
    return dt


def call(builder, options):
    return builder(**options)
"""

DAY = dtm.timedelta(1)
SPANS = (('1998-01-01', None), (None, '2012-12-31'),
         ('2003-06-19', '2003-12-26'), ('1990-03-01', '2030-10-01'))


def options(I, params, probe):
    """(option values, what the dates must be) for every useful choice"""
    later, same = probe.env['one_day_later'], probe.env['unmoved']
    out = [({}, lambda ds: ds)]

    def span(s, e):
        a = dtm.datetime.strptime(s, '%Y-%m-%d') if s else A
        b = dtm.datetime.strptime(e, '%Y-%m-%d') if e else B
        return lambda ds: {d for d in ds if a <= d <= b}
    for s, e in SPANS:
        o = {}
        if s:
            o['start_date'] = s
        if e:
            o['end_date'] = e
        if set(o) <= params:
            out.append((o, span(s, e)))
            out.append(({k: TS(dtm.datetime.strptime(v, '%Y-%m-%d'))
                         for k, v in o.items()}, span(s, e)))
    if 'observance' in params:
        if 'days_of_week' in params:     # else it has weekdays of its own
            out.append(({'observance': later},
                        lambda ds: {d + DAY for d in ds}))
        out.append(({'observance': same}, lambda ds: ds))
        out.append(({'observance': probe.env['monday_later']}, lambda ds:
                    {d if d.weekday() else d + DAY for d in ds}))
    if 'days_of_week' in params:
        for days in ((0,), (1, 2, 3), (5, 6), (0, 1, 2, 3, 4)):
            out.append(({'days_of_week': days}, lambda ds, days=days:
                        {d for d in ds if d.weekday() in days}))
    if {'days_of_week', 'start_date'} <= params:
        out.append(({'days_of_week': (2, 4), 'start_date': '2001-01-01'},
                    lambda ds: {d for d in span('2001-01-01', None)(ds)
                                if d.weekday() in (2, 4)}))
    return out


def c28(known):
    c = Check('C28', 'Every builder of a shared holiday is interpreted with '
              'no options and with each of its options; the unrolled dates '
              'must be those of the named festival, limited, moved or '
              'filtered as the option says.', [
                  'pandas Holiday rules behave as documented; they are '
                  'modelled, not analysed'])
    I = make_interp(REPO)
    try:
        m = I.import_module(MOD)
    except PyExc as e:
        raise AnalysisError('module %s raises %s' % (MOD, e.name()))
    probe = ModuleVal(PKG + '.probe_builders', 'probe', ast.parse(PROBE),
                      False)
    I.modules[probe.name] = probe
    I.import_module(probe.name)
    n = 0
    for name, f in sorted(m.env.items()):
        if not isinstance(f, FuncVal) or name.startswith('_'):
            continue
        params = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        if not params <= {'start_date', 'end_date', 'observance',
                          'days_of_week'} and name not in NAMED:
            continue
        site = '%s:%s %s' % (m.path, f.node.lineno, name)
        base = NAMED[name]() if name in NAMED else None
        for o, want in options(I, params, probe):
            key = '%s(%s)' % (name, ', '.join('%s=%s' % (
                k, getattr(v, 'name', v)) for k, v in sorted(o.items())))
            got = unroll(I, f, o)
            if isinstance(got, PyExc):
                c.decide('builds', key, site, None if got.model_gap()
                         else False, 'raises %s' % got.name())
                continue
            if isinstance(got, Top):
                c.dunno('dates', '%s: %s' % (key, got.why))
                continue
            if base is None:
                base = got           # no option first: the builder's own day
                continue
            got, w = [{d for d in ds if 1940 < d.year < 2059}
                      for ds in (got, want(base))]
            c.decide('option' if o else 'named day', key + ' is the '
                     'festival\'s date' + (' with the option applied'
                                           if o else ''), site, got == w,
                     'difference %s' % [str(d.date())
                                        for d in sorted(got ^ w)[:4]])
        n += 1
    c.extra['builders'] = n
    if n < 5:
        raise AnalysisError('only %d holiday builders found' % n)
    c.functions = {str(f) for f in I.called}
    return c.finish(60, known)


def unroll(I, f, o):
    I.begin_path()
    I.choices = []
    I.fuel = 400000
    try:
        h = I.call(f, [], dict(o))
        if isinstance(h, Top):
            return h
        if not isinstance(h, HolidayVal):
            return Top('returns %r' % (h,))
        ds = h.compute(I, A, B)
    except PyExc as e:
        return e
    except Undecided as e:
        return Top(str(e))
    if I.soft:
        why = I.soft[0]
        I.soft = []
        return Top(why)
    if isinstance(ds, Top):
        return ds
    return {d for d in ds if A <= d <= B}
