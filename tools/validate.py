import json,jsonschema,glob,os
d=os.path.dirname(os.path.abspath(__file__))+"/.."
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(d+'/properties.jsonl'): jsonschema.validate(json.loads(l),s)
if os.path.exists(d+'/MANIFEST.json'): jsonschema.validate(json.load(open(d+'/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(d+'/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print('ok')
