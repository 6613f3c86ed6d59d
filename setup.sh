#!/bin/sh
# nothing to build: the checks are Python and read /repo's working tree; verify the tools they need are there
set -e
/opt/venv/bin/python - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
print("z3", z3.get_version_string())
PY
cvc5 --version | head -1
mkdir -p evidence replays
