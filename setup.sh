#!/bin/bash
# nothing to install: confirm the interpreter and the solver bindings are there
cd "$(dirname "$0")" || exit 3
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, pandas, z3
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'z3', z3.get_version_string())"
