"""Obligation bookkeeping, evidence files and exit codes."""
import json
import os
import sys
import time

from .core import AnalysisError, PyExc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVID', os.path.join(HERE, 'evidence'))


class Finding(object):
    def __init__(self, key, where, rule, detail):
        self.key, self.where, self.rule, self.detail = key, where, rule, \
            detail

    def __str__(self):
        return '%s: [%s] %s -- %s' % (self.where, self.rule, self.key,
                                      self.detail)


class Check(object):
    """One run of one property's check."""

    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.held = 0
        self.undecided = []
        self.bad = []
        self.kinds = {}          # obligation kind -> [held, undecided, bad]
        self.functions = set()
        self.notes = []
        self.samples = []
        self.extra = {}

    # ---- recording

    def _kind(self, kind):
        return self.kinds.setdefault(kind, [0, 0, 0])

    def ok(self, kind, n=1, sample=None):
        self.held += n
        self._kind(kind)[0] += n
        if sample and len(self.samples) < 12 and \
                sum(1 for s in self.samples if s.startswith(kind)) < 1:
            self.samples.append('%s: %s' % (kind, sample))

    def dunno(self, kind, why):
        self.undecided.append('%s: %s' % (kind, why))
        self._kind(kind)[1] += 1

    def fail(self, kind, key, where, detail):
        self._kind(kind)[2] += 1
        self.bad.append(Finding(key, where, kind, detail))

    def decide(self, kind, key, where, verdict, detail):
        """verdict True / False / None"""
        if verdict is True:
            self.ok(kind, sample='%s %s' % (key, detail))
        elif verdict is False:
            self.fail(kind, key, where, detail)
        else:
            self.dunno(kind, '%s: %s' % (key, detail))

    def paths(self, kind, key, where, outs, match):
        """Decide an obligation from the outcomes of all its paths.

        A path with no imprecision that mismatches is a violation; an
        imprecise one leaves the obligation undecided."""
        verdict, detail = True, ''
        for o in outs:
            if o.kind == 'undecided':
                r = None
            else:
                r = match(o)
            if r is True:
                if not detail:
                    detail = repr(o)
                continue
            if r is False and not o.soft:
                w = where
                if o.kind == 'raise' and getattr(o.value, 'site', None):
                    p, f, l = o.value.site
                    w = '%s (raised at %s:%s in %s)' % (where, p, l, f)
                return self.decide(kind, key, w, False, repr(o))
            verdict, detail = None, repr(o)
        return self.decide(kind, key, where, verdict, detail)

    # ---- closing

    def finish(self, floor, known=()):
        """Write evidence, print the result, return the exit code."""
        knownhits = []
        bad = []
        for f in self.bad:
            k = next((k for k in known if k['property'] == self.pid and
                      matches_known(k, f)), None)
            if k is not None:
                if k not in knownhits:
                    knownhits.append(k)
            else:
                bad.append(f)
        self.bad = bad
        total = self.held + len(self.undecided) + len(bad)
        for f in bad[:40]:
            print('%s' % f)
        for k in knownhits:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        code = 0
        if bad:
            rp = os.path.join(EVID, self.pid + '.violation.txt')
            ensure(rp)
            with open(rp, 'w') as fh:
                fh.write('property %s violated\nrule: %s\n' % (
                    self.pid, self.rule))
                for f in bad:
                    fh.write('%s\n' % f)
            code = 1
        self.write_evidence(total, len(bad), floor, knownhits)
        print('%s: %d obligations, %d decided and held, %d undecided, '
              '%d violated' % (self.pid, total, self.held,
                               len(self.undecided), len(bad)))
        if os.environ.get('VERIF_DEBUG'):
            for u in self.undecided[:60]:
                print('  undecided', u[:300])
        if bad:
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if self.held < floor:
            print('ERROR property=%s only %d obligations decided, expected '
                  'at least %d' % (self.pid, self.held, floor))
            for u in self.undecided[:10]:
                print('  undecided', u[:300])
            return 2
        return code

    def write_evidence(self, total, nbad, floor, knownhits=()):
        p = os.path.join(EVID, self.pid + '.json')
        ensure(p)
        ev = {
            'property': self.pid,
            'tier': os.environ.get('VERIF_TIER', 'quick')
            if os.environ.get('VERIF_TIER') in ('quick', 'thorough')
            else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'obligations': total,
                'decided_and_held': self.held,
                'undecided': len(self.undecided),
                'floor': floor,
                'by_kind': {k: dict(held=v[0], undecided=v[1], violated=v[2])
                            for k, v in sorted(self.kinds.items())},
                'functions_analysed': sorted(self.functions),
                'samples': self.samples,
                'undecided_examples': self.undecided[:20],
                'known_findings': [k['what'] for k in knownhits],
            },
            'wall_s': round(time.time() - self.t0, 3),
            'assumptions': self.assumptions,
            'violations': nbad,
        }
        ev['coverage'].update(self.extra)
        with open(p, 'w') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True, default=str)
            fh.write('\n')


def ensure(p):
    d = os.path.dirname(p)
    if not os.path.isdir(d):
        os.makedirs(d)


def matches_known(k, f):
    return k['key'] == f.key


def load_known():
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh).get('known', [])]
