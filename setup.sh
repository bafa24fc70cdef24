#!/bin/bash
# Nothing to build: checks import the repository from source. Verifies the tools.
cd "$(dirname "$0")" || exit 1
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, numpy, scipy, sklearn
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
P
