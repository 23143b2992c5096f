#!/bin/bash
# nothing to compile: check that the interpreter and the code under test can be imported
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "import numpy, pandas, networkx, scipy, pgmpy, bcause"
