#!/bin/bash
# nothing to build: verify that the interpreter, numpy/scipy and z3 are importable
cd "$(dirname "$0")" && /opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, z3
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'z3', z3.get_version_string())"
