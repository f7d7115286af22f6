#!/bin/bash
# bash check.sh <property> [quick|thorough]     run one check
# bash check.sh replay <file>                   re-run one saved failing case
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR"
if [ "$1" = replay ]; then
    /opt/venv/bin/python -m vt.runner --replay "$2"
else
    /opt/venv/bin/python -m vt.runner --property "$1" --tier "${2:-${VERIF_TIER:-quick}}"
fi
exit $?
