#!/bin/bash
# usage: check.sh <property id>; VERIF_SEED and VERIF_TIER are honoured.
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
exec python -W ignore run.py "$1"
