#!/bin/bash
# nothing to build: check that the interpreter, numpy/scipy and the solver are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, z3; print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'z3', z3.get_version_string())"
