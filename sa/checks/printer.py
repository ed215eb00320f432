"""C24: the command-line calendar printer.

The printer is interpreted from its source with a calendar whose sessions
follow a given pattern; its output is parsed back (titles, weekday headers,
day cells under a header) and compared with the month asked for.  Months
repeat in 14 year shapes, so the shapes stand for all years."""
import ast
import calendar as cal_
import datetime as dt
import os
import re

from ..core import (AbsVal, Top, PyExc, Undecided, AnalysisError, ListVal,
                    ModuleVal, FuncVal, AStr)
from ..report import Check, REPO
from ..fold import make_interp
from ..pdconst import TS, DTI, to_dt
from ..stdmodels import Stream

MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
          'August', 'September', 'October', 'November', 'December']
HEAD = ['Su', 'Mo', 'Tu', 'We', 'Th', 'Fr', 'Sa']
YEARS = list(range(1998, 2012)) + [1900, 2000, 2020, 2021, 2100]
NOW = (2020, 10)

PATTERNS = [('weekdays', lambda d: d.weekday() < 5),
            ('every day', lambda d: True),
            ('no day', lambda d: False),
            ('odd days', lambda d: d.day % 2 == 1),
            ('last day of the month', lambda d: (
                d + dt.timedelta(days=1)).day == 1)]

ASSUME = ['a calendar reports a midnight date as a session exactly as the '
          'query checks (C01, C05) decide',
          'years are those dates can represent (1678 to 2261); every such '
          'year has one of the 14 shapes analysed']


class Cal(AbsVal):
    def __init__(self, pattern):
        self.pattern = pattern

    def kind(self):
        return 'calendar'

    def truth(self, I):
        return True

    def m_is_session(self, I, d):
        t = to_dt(d)
        if t is None:
            return Top('session of unknown date')
        if isinstance(d, TS) and d.tz is not None and \
                getattr(d.tz, 'name', None) != 'UTC':
            return Top('session of zoned time')
        return t.time() == dt.time(0) and bool(self.pattern(t.date()))

    def m_sessions_in_range(self, I, a, b):
        a, b = to_dt(a), to_dt(b)
        if a is None or b is None:
            return Top('sessions of unknown range')
        out, d = [], a
        while d <= b:
            if self.pattern(d.date()):
                out.append(d)
            d += dt.timedelta(days=1)
        return DTI(I, out, None)


class Getter(AbsVal):
    def __init__(self, cal, orig):
        self.cal, self.orig, self.asked = cal, orig, []

    def call(self, I, args, kw):
        n = args[0] if args else kw.get('name')
        if n == 'XKNOWN':
            self.asked.append(n)
            return self.cal
        return I.call(self.orig, args, kw)


class World(object):
    def __init__(self, path, name):
        self.I = I = make_interp(REPO, now=NOW)
        self.path = path
        m = I.modules.get(name)
        if m is None:
            src = open(os.path.join(REPO, path)).read()
            m = ModuleVal(name, path, ast.parse(src), False)
            I.modules[name] = m
        I.fuel = 10 ** 7
        I.load(m)
        I.import_module('trading_calendars')
        self.m = m
        self.pkg = I.modules['trading_calendars']
        self.util = I.modules.get('trading_calendars.calendar_utils')
        self.orig = self.pkg.env.get('get_calendar')
        if self.orig is None:
            raise AnalysisError('anchor missing: get_calendar')
        self.main = m.env.get('main')
        if not isinstance(self.main, FuncVal):
            raise AnalysisError('anchor missing: main in %s' % path)

    def run(self, argv, pattern=None, implicit=False):
        """(kind, value, stdout text, stderr text)"""
        I = self.I
        I.begin_path()
        I.choices = []
        I.fuel = 2000000
        out, err = Stream('stdout'), Stream('stderr')
        I.consts['sys.stdout'], I.consts['sys.stderr'] = out, err
        g = Getter(Cal(pattern), self.orig)
        saved = []
        for mod in (self.pkg, self.util, self.m):
            if mod is not None and mod.env.get('get_calendar') is not None:
                saved.append((mod, mod.env['get_calendar']))
                mod.env['get_calendar'] = g

        def pr(I_, args, kw):
            out.sink(I_, args, kw.get('sep'), kw.get('end'))
        I.hooks['print'] = pr
        av = ListVal(I, list(argv))
        I.consts['sys.argv'] = av
        try:
            r = ('return', I.call(self.main, [] if implicit else [av], {}))
        except PyExc as e:
            r = ('raise', e)
        except Undecided as e:
            r = ('?', str(e))
        finally:
            for mod, v in saved:
                mod.env['get_calendar'] = v
        if r[0] != '?' and I.soft:
            r = ('?', I.soft[0])
        return r + (out.text(), err.text())

    def site(self, name):
        f = self.m.env.get(name)
        if not isinstance(f, FuncVal):
            f = self.main
        return '%s:%d %s' % (self.path, f.node.lineno, f.node.name)


CELL = re.compile(r'\[ *(\d+) *\]|(\d+)')


def parse(text):
    """[(title text, title span start, [(line, column, day, bracketed)])] and
    the text before the first month; raises ValueError on stray text"""
    lines = [l for l in text.split('\n') if l.strip()]
    heads = [i for i, l in enumerate(lines) if 'Su' in l.split()]
    if not heads:
        raise ValueError('no weekday header')
    pre = ' '.join(l.strip() for l in lines[:max(heads[0] - 1, 0)])
    out = []
    for n, h in enumerate(heads):
        toks = [(m.group(), m.start(), m.end())
                for m in re.finditer(r'\S+', lines[h])]
        if [t[0] for t in toks] != HEAD * (len(toks) // 7):
            raise ValueError('weekday header %r' % lines[h].strip())
        k = len(toks) // 7
        titles = list(re.finditer(r'([A-Z][a-z]+)( -?\d+)?', lines[h - 1])) \
            if h else []
        if len(titles) != k or re.sub(
                r'([A-Z][a-z]+)( -?\d+)?', '', lines[h - 1]).strip():
            raise ValueError('title line %r' % lines[h - 1].strip())
        months = []
        for j in range(k):
            a, b = toks[7 * j][1], toks[7 * j + 6][2]
            t = titles[j]
            if t.end() <= a - 2 or t.start() >= b + 2:
                raise ValueError('title %r beside its month' % t.group())
            months.append((t.group(), []))
        end = heads[n + 1] - 1 if n + 1 < len(heads) else len(lines)
        for li in range(h + 1, end):
            rest = list(lines[li])
            for m in CELL.finditer(lines[li]):
                d = m.group(1) or m.group(2)
                a, b = m.span(1) if m.group(1) else m.span(2)
                col = [i for i, t in enumerate(toks)
                       if a < t[2] and b > t[1]]
                if len(col) != 1:
                    raise ValueError('day %s under no weekday' % d)
                months[col[0] // 7][1].append(
                    (li, col[0] % 7, int(d), bool(m.group(1))))
                for x in range(*m.span()):
                    rest[x] = ' '
            if ''.join(rest).strip():
                raise ValueError('stray text %r' % ''.join(rest).strip())
        out += months
    return pre, out


def judge_month(got, title, year, month, pattern):
    if ' '.join(got[0].split()) != title:
        return 'title %r instead of %r' % (got[0], title)
    n = cal_.monthrange(year, month)[1]
    cells = got[1]
    days = [c[2] for c in cells]
    if days != list(range(1, n + 1)):
        return 'days %s instead of 1 to %d' % (
            ','.join(map(str, days)) if len(days) < 6 else '%s..%s (%d)' % (
                days[0], days[-1], len(days)), n)
    for i, (li, col, d, br) in enumerate(cells):
        x = dt.date(year, month, d)
        if col != (x.weekday() + 1) % 7:
            return 'day %d under %s' % (d, HEAD[col])
        if i and (li != cells[i - 1][0]) != (col == 0):
            return 'day %d on the wrong line' % d
        if br == bool(pattern(x)):
            return 'day %d %s' % (d, 'bracketed although a session' if br
                                  else 'not bracketed although no session')
    return None


def view(W, argv, year, month, pattern, implicit=False):
    k, v, out, err = W.run(argv, pattern, implicit)
    if k == '?':
        return None, v
    if k == 'raise':
        if v.name() == 'SystemExit':
            return False, 'rejected%s' % (' with %r' % err.strip()
                                          if err else '')
        return False, 'raises %s at %s' % (v.name(), str(v.site))
    if out is None:
        return None, 'output text unknown'
    try:
        pre, ms = parse(out)
    except ValueError as e:
        return False, str(e)
    if month is not None:
        if len(ms) != 1:
            return False, '%d months shown instead of one' % len(ms)
        bad = judge_month(ms[0], '%s %d' % (MONTHS[month - 1], year), year,
                          month, pattern)
        if not bad and pre:
            bad = 'stray text %r' % pre
        return not bad, bad
    if pre != str(year):
        return False, 'heading %r instead of the year' % pre
    if len(ms) != 12:
        return False, '%d months shown instead of twelve' % len(ms)
    for i, g in enumerate(ms):
        bad = judge_month(g, MONTHS[i], year, i + 1, pattern)
        if bad:
            return False, '%s: %s' % (MONTHS[i], bad)
    return True, ''


HELP = 'a request for help'
REJECT = [(['tcal'], 'no calendar'),
          (['tcal', 'XKNOWN', 'abc'], 'a year that is no integer'),
          (['tcal', 'XKNOWN', '20x0'], 'a year that is no integer'),
          (['tcal', 'XKNOWN', ''], 'an empty year'),
          (['tcal', 'XKNOWN', '1', 'abc'], 'a year that is no integer'),
          (['tcal', 'XKNOWN', 'Jan', '2020'], 'a month that is no integer'),
          (['tcal', 'XKNOWN', '1.5', '2020'], 'a month that is no integer'),
          (['tcal', 'XKNOWN', '0', '2020'], 'month 0'),
          (['tcal', 'XKNOWN', '13', '2020'], 'month 13'),
          (['tcal', 'XKNOWN', '-1', '2020'], 'month -1'),
          (['tcal', 'XKNOWN', '2020', '1'], 'month and year exchanged'),
          (['tcal', 'XKNOWN', '1', '1', '2020', '1'], 'six words'),
          (['tcal', 'XUNKNOWN'], 'an unknown calendar'),
          (['tcal', 'XUNKNOWN', '2020'], 'an unknown calendar'),
          (['tcal', 'XUNKNOWN', '1', '2020'], 'an unknown calendar'),
          (['tcal', '--help'], HELP),
          (['tcal', '-h'], HELP),
          (['tcal', 'XKNOWN', '--help'], HELP),
          (['tcal', 'XKNOWN', '1', '-h'], HELP)]


def rejected(W, argv, what):
    k, v, out, err = W.run(argv, PATTERNS[0][1])
    if k == '?':
        return None, v
    if k == 'return':
        return False, 'accepted'
    if v.name() != 'SystemExit':
        return False, 'raises %s at %s' % (v.name(), str(v.site))
    said = err is None or err.strip() or out is None or out.strip() or any(
        isinstance(a, str) and a for a in getattr(v.val, 'args', []) or [])
    if not said:
        return False, 'ends without a message'
    args = getattr(v.val, 'args', None)
    code = args[0] if args else None
    if isinstance(code, str):
        err = None if err is None else err + code
    if what == HELP:
        if None not in (out, err) and 'usage' not in (out + err).lower():
            return False, 'answers %r, not the usage' % (out + err).strip()
    else:
        if code is None or (isinstance(code, int) and not code % 256):
            return False, 'ends with a successful exit status'
        if err is not None and not err.strip():
            return False, 'says nothing on standard error'
    if out and re.search(r'\bSu\b', out):
        return False, 'prints a calendar before rejecting'
    return True, ''


def c24(known):
    c = Check('C24', 'Both copies of the printer are interpreted for every '
              'month of every year shape and five session patterns, for the '
              'year view, the current month and invalid argument lists; the '
              'text they print is parsed back and compared.', ASSUME)
    worlds = [World('trading_calendars/tcal.py', 'trading_calendars.tcal')]
    if os.path.exists(os.path.join(REPO, 'etc/tcal')):
        worlds.append(World('etc/tcal', 'etc_tcal'))
    for W in worlds:
        many = W is worlds[0]

        def put(rule, r, what, where):
            if r[0] is True:
                c.ok(rule, sample='%s: %s' % (W.path, what))
            elif r[0] is False:
                c.fail(rule, what, W.site(where), r[1])
            else:
                c.dunno(rule, '%s: %s: %s' % (W.path, what, r[1]))
        for y in YEARS if many else YEARS[:3]:
            for m in range(1, 13):
                for pn, pf in PATTERNS if y in YEARS[:7] else PATTERNS[:1]:
                    put('month', view(W, ['tcal', 'XKNOWN', str(m), str(y)],
                                      y, m, pf),
                        '%s %d, sessions %s' % (MONTHS[m - 1], y, pn),
                        '_render_month')
            for pn, pf in PATTERNS if many else PATTERNS[:2]:
                put('year', view(W, ['tcal', 'XKNOWN', str(y)], y, None, pf),
                    'year %d, sessions %s' % (y, pn), 'main')
        put('now', view(W, ['tcal', 'XKNOWN'], NOW[0], NOW[1],
                        PATTERNS[3][1]), 'no month given', 'parse_args')
        if not W.main.node.args.args or W.main.node.args.defaults:
            put('now', view(W, ['tcal', 'XKNOWN', '2', '2019'], 2019, 2,
                            PATTERNS[0][1], True),
                'arguments of the process', 'main')
        for argv, what in REJECT:
            put('reject', rejected(W, argv, what), '%s (%s)' % (
                ' '.join(argv[1:]), what), 'parse_args')
        c.functions |= {str(f) for f in W.I.called}
    return c.finish(300, known)
