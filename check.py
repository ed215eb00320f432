#!/usr/bin/env python3
"""Run one property's check:  python3 check.py C01"""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.core import AnalysisError           # noqa: E402
from sa.report import load_known            # noqa: E402

WHERE = {}
for _p in range(1, 9):
    WHERE['C%02d' % _p] = 'queries'
for _p in range(9, 12):
    WHERE['C%02d' % _p] = 'building'

WHERE['C12'] = WHERE['C13'] = 'registry'
for _p in (14, 15, 16, 17, 19, 20):
    WHERE['C%02d' % _p] = 'definitions'
WHERE['C18'] = 'tables'
WHERE['C21'] = 'effects'
WHERE['C22'] = 'memo'
WHERE['C23'] = 'errors'
WHERE['C24'] = 'printer'
WHERE['C25'] = WHERE['C26'] = 'spans'
WHERE['C27'] = 'integrity'
WHERE['C28'] = 'builders'
WHERE['C29'] = 'queries'


def main(pid):
    mod = importlib.import_module('sa.checks.' + WHERE[pid])
    try:
        return getattr(mod, pid.lower())(load_known())
    except AnalysisError as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s internal error' % pid)
        return 3


if __name__ == '__main__':
    if len(sys.argv) != 2 or sys.argv[1] not in WHERE:
        print('usage: check.py PROPERTY (one of %s)' % ' '.join(
            sorted(WHERE)))
        sys.exit(2)
    sys.exit(main(sys.argv[1]))
