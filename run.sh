#!/bin/bash
# bash run.sh C04 [--replay FILE] : run the check of one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
. /opt/vp/support/env.sh
exec "$PY" -m sim.check "$@"
