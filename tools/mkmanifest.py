#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = 'abstract interpretation of the calendar base class over an order ' \
    'domain (symbolic number of sessions, instants up to their order)'
FOLD = 'constant folding (abstract interpretation) of every shipped calendar ' \
    'definition'
T = {
    'C01': ORDER, 'C02': ORDER, 'C03': ORDER, 'C04': ORDER, 'C05': ORDER,
    'C06': ORDER, 'C07': ORDER, 'C08': ORDER,
    'C09': ORDER + ' with provenance of every cell',
    'C10': ORDER + ' with provenance of every cell',
    'C11': 'dataflow of the business-day definition into the session index, '
           'and ' + FOLD,
    'C12': 'typestate analysis of the registry over all name states',
    'C13': 'typestate analysis of the registry over all name states',
    'C14': 'static name resolution of the default registry against a '
           'reference table, dispatcher interpreted with stubbed types',
    'C15': FOLD + ', interval reasoning on wall-clock times',
    'C16': FOLD + ', set intersection of special days and non-sessions',
    'C17': FOLD + ', compared with documented holiday rules year by year',
    'C18': FOLD + ' of holiday tables, compared with computed lunisolar, '
           'solar, ecclesiastical, Hebrew and Islamic calendars',
    'C19': 'interval analysis of constructor guards against folded tables',
    'C20': FOLD + ', compared with recorded history',
    'C21': 'effect (write-set) and buffer-alias analysis',
    'C22': 'typestate analysis of the memo descriptor',
    'C23': 'raise-site analysis: message templates against supplied values',
    'C24': 'abstract interpretation of the month printer over all month '
           'shapes',
    'C25': 'dataflow of the bounds from every constructor to '
           'the session index',
    'C26': FOLD + ' and interpretation of the execution hooks',
    'C27': 'name, attribute, import and dependency resolution',
    'C28': 'abstract interpretation of the holiday builders under every '
           'option',
    'C29': 'abstract interpretation of the instant queries in the order '
           'domain, instants written in a zone of known offset',
}
NOTE = 'Static: the sources in /repo are parsed and abstractly interpreted ' \
    'on every run, never executed. Decided obligations are definite; ' \
    'imprecise ones are counted as undecided in the evidence, and falling ' \
    'below a floor of decided obligations is an error, not a pass.'


def main():
    import sys
    sys.path.insert(0, HERE)
    import check
    props = [json.loads(l) for l in
             open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in check.WHERE:
            checks.append({
                'property': i,
                'quick_cmd': 'python3 /verif/check.py %s' % i,
                'thorough_cmd': 'python3 /verif/check.py %s' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': T[i], 'level': 'other', 'level_note': NOTE})
        else:
            na.append({'property': i, 'reason': 'No check is claimed yet.'})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
         'not_applicable': na,
         'notes': 'No hooks in /repo. Known findings and repaired defects '
                  'are in known-findings.json; see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
