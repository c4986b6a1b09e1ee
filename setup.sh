#!/bin/bash
# Nothing to build: the monitors are Python and drive the library straight from /repo's working tree.
cd "$(dirname "$(realpath "$0")")" || exit 1
/opt/venv/bin/python -B -c "import numpy, pandas, scipy, sys; print('python', sys.version.split()[0], 'numpy', numpy.__version__, 'pandas', pandas.__version__)"
