#!/bin/bash
# Unpack hypothesis (offline wheelhouse) into /verif/.deps. Checks also do this lazily.
set -e
DIR="$(cd "$(dirname "$0")" && pwd)"
/opt/venv/bin/python - "$DIR" <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1] + "/pbt")
import deps
print(deps.ensure())
P
