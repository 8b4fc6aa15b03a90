#!/bin/bash
# Nothing is built ahead of time: the encoding is regenerated from /repo's source by every check.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, '.')
from engine import path, ring, snp, loader
print('engine ok, z3', path.z3.get_version_string())
PY
