#!/bin/bash
# Regenerates known_findings.json, properties.jsonl and MANIFEST.json and validates them.
cd "$(dirname "$0")/.." && python3 tools/findings.py && python3 tools/props.py > properties.jsonl && python3 tools/manifest.py && python3 tools/design.py && python3-vt - <<'P'
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
P
