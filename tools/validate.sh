#!/bin/sh
# Validate the committed JSON files against the task's schemas.
/opt/veriftools/pyvenv/bin/python - <<'P'
import json,jsonschema,os,glob
V="/verif/"
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V+"properties.jsonl"): jsonschema.validate(json.loads(l),S)
if os.path.exists(V+"MANIFEST.json"): jsonschema.validate(json.load(open(V+"MANIFEST.json")),json.load(open("/root/.vp/MANIFEST.schema.json")))
E=json.load(open("/root/.vp/EVIDENCE.schema.json"))
for f in glob.glob(V+"evidence/*.json"): jsonschema.validate(json.load(open(f)),E)
print("schemas ok")
P
