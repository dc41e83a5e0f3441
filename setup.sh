#!/bin/bash
# Nothing is built ahead: the checks import /repo's working tree. Only verifies
# that what they need is installed.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python - <<'P'
import jax, numpy
print('jax', jax.__version__, 'numpy', numpy.__version__)
P
