#!/usr/bin/env python3-vt
import json,glob,jsonschema,re
ps=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    o=json.loads(l); jsonschema.validate(o,ps)
    n=len(re.findall(r'[.!?](?:\s|$)',o['statement'])); 
    if n>3: print(o['id'],'sentences',n)
try:
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
except FileNotFoundError: print('no manifest')
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(glob.glob('/verif/evidence/*.json')):
    jsonschema.validate(json.load(open(f)),es)
print('ok')
