#!/bin/sh
# Compares the tables with their schemas.
python3-vt - <<'P'
import json,jsonschema
m=json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(json.load(open('/verif/MANIFEST.json')),m)
p=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),p)
P
