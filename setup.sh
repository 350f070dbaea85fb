#!/bin/bash
# Nothing to build: checks run the Python sources of /repo directly. Verifies that the tools are there.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env/env.sh 2>/dev/null
cd "$here" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$here" /opt/venv/bin/python -W ignore -c "import mc.core, mc.bufmodel, mc.rng; print('ok')"
