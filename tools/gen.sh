#!/bin/bash
HERE="$(cd "$(dirname "$0")/.." && pwd)"
export VERIF_ROOT="$HERE" VERIF_REPO="${VERIF_REPO:-/repo}" PYTHONPATH="${VERIF_REPO:-/repo}:$HERE:$HERE/vendor" PYTHONWARNINGS=ignore PYTHONPYCACHEPREFIX=/tmp/verif-gen-pyc NUMBA_CACHE_DIR=/tmp/verif-gen-nb
/opt/venv/bin/python "$HERE/tools/gen_manifest.py"
python3-vt - <<P
import json, jsonschema
jsonschema.validate(json.load(open("$HERE/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("$HERE/properties.jsonl"):
    jsonschema.validate(json.loads(l), s)
P
