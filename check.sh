#!/bin/bash
# check.sh <property id> [quick|thorough]
D="$(cd "$(dirname "$0")" && pwd)"
export TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX="$(mktemp -d)"
PY=/opt/venv/bin/python
"$PY" "$D/harness/run.py" "$@"
rc=$?
find "$PYTHONPYCACHEPREFIX" -delete 2>/dev/null
exit $rc
