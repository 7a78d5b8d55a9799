#!/bin/bash
# Nothing to build: the checks import /repo/src directly. Verify that the interpreter and flowMC load.
cd "$(dirname "$0")" || exit 1
. /opt/vp/support/env.sh
mkdir -p evidence
"$PY" -c "
from sim import core
core.setup_jax()
import flowMC.Sampler
print('flowMC loads from', flowMC.Sampler.__file__)"
