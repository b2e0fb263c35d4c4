#!/bin/bash
# Nothing to build: checks that the environment can run the harness (every check does this by itself).
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, 'harness')
import main
main.bootstrap()
import hypothesis, numpy, scipy
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'scipy', scipy.__version__)
PY
