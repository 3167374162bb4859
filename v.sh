#!/bin/bash
# verbose run of some contracts: v.sh <property> <regex>
cd "$(dirname "$0")" || exit 2
. /opt/vp/support/env.sh >/dev/null 2>&1
export PYTHONPATH="/opt/vp/support:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m pyvc.run --property "$1" --only "${2:-.}" -v "${@:3}"
