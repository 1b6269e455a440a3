#!/bin/bash
# schema check of the committed JSON files and whatever evidence is there
cd "$(dirname "$0")/.." && python3-vt - <<'P'
import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); assert len(p['title'])<=80, p['title']; assert p['statement'].count('. ')<3
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('ok')
P
