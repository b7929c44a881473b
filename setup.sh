#!/bin/bash
# Nothing to install: the checks run on the interpreter and libraries that are already there, and compile the
# extensions from /repo's sources themselves when the built ones are stale.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$HERE/evidence"
/opt/venv/bin/python -c "import numpy, pandas, sklearn, networkx, torch, Cython" && command -v g++ >/dev/null
