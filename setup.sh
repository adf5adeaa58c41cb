#!/bin/bash
# nothing to build ahead of time: every check encodes /repo's working tree itself
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
P
command -v gfortran >/dev/null
