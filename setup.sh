#!/bin/sh
# Nothing is compiled: the checks read /repo's source at run time.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -c "
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, cvc5, jax, differt2d
print('z3', z3.get_version_string(), 'jax', jax.__version__, differt2d.__file__)"
