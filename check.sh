#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
. /opt/vp/support/env.sh >/dev/null 2>&1
export PYTHONPATH="/opt/vp/support:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m pyvc.run --property "$1" --tier "${2:-${VERIF_TIER:-quick}}"
