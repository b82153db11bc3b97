#!/bin/bash
# nothing to build: the framework is interpreted; check that its interpreters are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c "import z3"
/opt/venv/bin/python -c "import torch, numpy"
