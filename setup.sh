#!/bin/bash
# Nothing to build: the engine is Python, the solvers are pre-installed. Checks that they are there.
cd "$(dirname "$0")" || exit 1
. /opt/vp/support/env.sh >/dev/null 2>&1
export PYTHONPATH="/opt/vp/support:$PWD" PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
exec /opt/venv/bin/python -c "import pyvc.boot as b; b.boot(); import z3; print('pyvc ready, z3', z3.get_version_string())"
