#!/bin/bash
# Nothing to build: checks that the interpreter and its packages are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import numpy, scipy; print('numpy', numpy.__version__, 'scipy', scipy.__version__)"
