#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  A property is claimed when src/<id>_*.cpp exists."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

NA_DEFAULT = 'no check has been built for it'
props, checks, na = [], [], []
for p in PROPS:
    props.append({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['quant']},
        'why_tests_cant': p['why'],
        'anchors': {'files': ['Merlin++/' + f for f in p['files']],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}})
    if glob.glob(os.path.join(V, 'src', p['id'].lower() + '_*.cpp')):
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
            'technique': 'property-based testing: ' + p['tech'],
            'level': 'exploration',
            'level_note': p.get('note', 'Random search with shrinking over the stated generators under ASan and UBSan; it finds '
                                'counterexamples and never proves absence. Trusts the reference model in the harness, g++ and '
                                'the floating-point tolerances stated there.')})
    else:
        na.append({'property': p['id'], 'reason': p.get('na', NA_DEFAULT)})
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
import jsonschema
sp = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, sp)
jsonschema.validate(json.load(open(os.path.join(V, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(props), 'properties,', len(checks), 'claimed')
