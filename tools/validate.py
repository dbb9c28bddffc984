import json, jsonschema
ps=json.load(open('/root/.vp/PROPERTIES.schema.json')); ms=json.load(open('/root/.vp/MANIFEST.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), ps)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), ms)
print('ok')
