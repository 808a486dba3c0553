import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('./properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('./MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print('ok')
