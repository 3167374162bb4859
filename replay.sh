#!/bin/bash
# usage: replay.sh <replay file written by a check>: re-runs the recorded input against the real code in /repo.
f="$(realpath "$1")"; cd "$(dirname "$0")" || exit 2
. /opt/vp/support/env.sh >/dev/null 2>&1
export PYTHONPATH="/opt/vp/support:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m pyvc.replay "$f"
