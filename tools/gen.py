#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
with open(HERE + '/properties.jsonl', 'w') as f:
    for i, p in sorted({**props.PROPS, **props.NA}.items()):
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': [], 'not_applicable': []}
for i, p in sorted(props.PROPS.items()):
    m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                        'technique': p['technique'], 'level': p.get('level', 'proof'), 'level_note': p['note']})
for i, p in sorted(props.NA.items()):
    m['not_applicable'].append({'property': i, 'reason': p['reason']})
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(HERE + '/properties.jsonl'):
    jsonschema.validate(json.loads(l), sch)
print(len(props.PROPS), 'checks', len(props.NA), 'not applicable')
