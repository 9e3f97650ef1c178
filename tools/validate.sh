#!/bin/bash
cd "$(dirname "$0")/.." && python3 tools/gen.py && python3-vt - <<'P'
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=set()
for l in open('properties.jsonl'): p=json.loads(l); jsonschema.validate(p,s); ids.add(p['id'])
m=json.load(open('MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
assert ids=={c['property'] for c in m['checks']}|{c['property'] for c in m['not_applicable']}
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
import os
for f in os.listdir('evidence'):
    if f.endswith('.json'): jsonschema.validate(json.load(open('evidence/'+f)),e)
print('valid',len(ids))
P
