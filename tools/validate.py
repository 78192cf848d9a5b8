import json,jsonschema
S='/root/.vp/'
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open(S+'MANIFEST.schema.json')))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),json.load(open(S+'PROPERTIES.schema.json')))
print("ok")
