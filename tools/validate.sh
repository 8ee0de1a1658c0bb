#!/bin/bash
# validates MANIFEST.json and properties.jsonl against the schemas
python3-vt - <<'P'
import json,jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),sch)
print('ok')
P
