#!/usr/bin/env python3
"""Writes data/history.json: the days and hours each shipped calendar had from
1970 to 2020, or to the end of its list of dates (run by hand once; the committed file is the reference of C20).

Before writing, the result is compared with the answers recorded in the test
resources of the repository for the years they cover."""
import csv
import datetime as dtm
import json
import os
import sys
from zoneinfo import ZoneInfo

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.checks.definitions import Defs, bounds, ZONES   # noqa
from sa.history import record, unpack              # noqa
from sa.core import Top                            # noqa
from sa.report import REPO                         # noqa

HI = dtm.datetime(2020, 12, 31)


def compare(n, r):
    p = os.path.join(REPO, 'tests/resources/%s.csv' % n.lower().replace(
        '/', '-'))
    if not os.path.exists(p):
        return 'no recorded answers'
    rows = list(csv.reader(open(p)))[1:]
    z = ZoneInfo(ZONES[n])
    closed, late, early = (unpack(r[k]) for k in ('closed', 'late', 'early'))
    got = {}
    for row in rows:
        got[dtm.date.fromisoformat(row[0][:10])] = row
    lo = max(min(got), dtm.date.fromisoformat(r['from']))
    hi = min(max(got), HI.date())
    d, bad, n_ok = lo, [], 0
    while d <= hi:
        is_s = r['weekdays'][d.weekday()] == '1' and d not in closed
        if is_s != (d in got):
            bad.append('%s session %s' % (d, is_s))
        elif is_s:
            h = [x for x in r['hours'] if x[0] <= str(d)][-1]
            for col, base, sp, off in ((1, h[1], late, r['offsets'][0]),
                                       (2, h[4], early, r['offsets'][1])):
                t = sp.get(d) or base
                w = dtm.datetime.combine(d + dtm.timedelta(off),
                                         dtm.time.fromisoformat(t), z)
                u = w.astimezone(dtm.timezone.utc).strftime(
                    '%Y-%m-%d %H:%M:%S')
                if u != got[d][col][:19]:
                    bad.append('%s %s %s' % (d, u, got[d][col]))
            n_ok += 1
        d += dtm.timedelta(1)
    return '%s..%s %d sessions, %d differ %s' % (lo, hi, n_ok, len(bad),
                                                 bad[:3])


def main():
    D = Defs('C20', '')
    out = {}
    for n, f in D.shipped().items():
        lo, hi = bounds(D, f)
        r = record(D.I, f, lo, hi if hi.year < 2049 else HI)
        if isinstance(r, Top):
            raise SystemExit('%s: %s' % (n, r.why))
        out[n] = r
        print(n, compare(n, r))
    with open(os.path.join(HERE, 'data/history.json'), 'w') as fh:
        json.dump(out, fh, indent=0, sort_keys=True)
        fh.write('\n')


if __name__ == '__main__':
    main()
