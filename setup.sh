#!/bin/sh
# Checks the tools the framework relies on; every check builds /repo itself.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python -B -c "
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, h5py, yaml, click, Cython, hypothesis
print('numpy', numpy.__version__, 'hypothesis', hypothesis.__version__)"
/opt/venv/bin/python -B vlib/build.py
