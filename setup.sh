#!/bin/bash
# Nothing to build: checks import /repo's working tree and run TLC. Sanity only.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:/verif
/opt/venv/bin/python - <<'P' || exit 1
import qsymm, vh.exact
assert qsymm.__file__.startswith('/repo/'), qsymm.__file__
P
java -version >/dev/null 2>&1 || exit 1
for f in spec/*.tla; do test -s "$f" || exit 1; done
echo setup ok
