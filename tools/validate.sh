#!/bin/bash
cd "$(dirname "$0")/.." && python3-vt - <<'P'
import json,jsonschema,glob,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s)
    for f in p['anchors']['files']+[m['where'] for m in p['anchors']['mechanism']]:
        if not os.path.exists('/repo/'+f): print(p['id'],'missing',f)
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
for f in glob.glob('evidence/P??.json'): 
    try: jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
    except Exception as e: print(f,str(e)[:100])
P
