#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contracts on the real functions, discharged by CBMC (SAT/SMT) over all inputs'
TECH_BOUNDED = 'contracts on the real functions, discharged by CBMC (SAT) within stated bounds on counts and lengths'
LEVEL_NOTE = ('Pre/postcondition harnesses over the real source (preprocessed from /repo on every run, exceptions made explicit, logging and '
              'memory contexts dropped), every obligation discharged by CBMC with unwinding assertions. ')

PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, level='proof', state=None):
    PROPS.append({'p': {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                        'why_tests_cant': why,
                        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}},
                  'note': note, 'level': level})


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None)
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(VERIF, 'bin', 'props_data.py')).read())

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for x in PROPS:
        f.write(json.dumps(x['p']) + '\n')

manifest = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': [{
        'property': x['p']['id'],
        'quick_cmd': 'python3 bin/check.py %s' % x['p']['id'],
        'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % x['p']['id'],
        'technique': TECH if x['level'] == 'proof' else TECH_BOUNDED,
        'level': x['level'],
        'level_note': LEVEL_NOTE + x['note'],
    } for x in PROPS if x['note'] is not None],
    'not_applicable': NA,
    'notes': 'No hooks in /repo. Harnesses: units/*.c; extraction: bin/xform.py; driver: bin/check.py; see DESIGN.md.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
