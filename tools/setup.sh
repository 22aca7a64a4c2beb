#!/bin/bash
# Nothing to compile: the framework is pure Python with a vendored Hypothesis. Check that it imports.
HERE="$(cd "$(dirname "$0")/.." && pwd)"
PYTHONPYCACHEPREFIX="$(mktemp -d)" PYTHONPATH="$HERE:$HERE/vendor" exec /opt/venv/bin/python -c "import hypothesis, harness.core"
