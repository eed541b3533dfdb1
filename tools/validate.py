import json, jsonschema, os
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d = json.loads(l); jsonschema.validate(d, s)
if os.path.exists('/verif/MANIFEST.json'):
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(os.listdir('/verif/evidence')):
    if f.endswith('.json'):
        jsonschema.validate(json.load(open('/verif/evidence/' + f)), e)
print("valid")
