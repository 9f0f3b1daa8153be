#!/bin/bash
# nothing to build: checks import /repo's sources directly; verify the tools are there
cd "$(dirname "$0")" || exit 3
/opt/veriftools/pyvenv/bin/python -c "import z3, numpy, scipy" && /opt/pvenv/bin/python -c "import numpy" || exit 3
