#!/bin/bash
# Nothing to build: the checks are Python and import the code from /repo's
# working tree. Verify that the interpreter and the dependencies are there.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c '
import numpy, torch, tad_mctc, tad_multicharge
print("numpy", numpy.__version__, "torch", torch.__version__)'
