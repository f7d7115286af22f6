#!/bin/bash
# Nothing is kept from here: every check prepares itself. This shows that it can.
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR" && /opt/venv/bin/python -c "
from vt import bootstrap; bootstrap.boot()
import hypothesis, ros_bt_py.node; print('setup ok', hypothesis.__version__)"
