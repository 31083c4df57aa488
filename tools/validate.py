"""Validates the committed JSON files against the schemas (python3-vt)."""
import json, jsonschema, glob, os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
n=0
for l in open(HERE+'/properties.jsonl'):
    r=json.loads(l); jsonschema.validate(r,s); n+=1
    c=r['statement'].count('. ')+1
    if c>3: print(r['id'],c)
jsonschema.validate(json.load(open(HERE+'/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(HERE+'/evidence/*.json'):
    jsonschema.validate(json.load(open(f)),e)
print(n)
