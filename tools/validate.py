import json, jsonschema
ms=json.load(open('/root/.vp/MANIFEST.schema.json')); ps=json.load(open('/root/.vp/PROPERTIES.schema.json'))
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), ms)
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l), ps)
print('valid')
