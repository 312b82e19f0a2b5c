#!/bin/bash
# check.sh PROPERTY [quick|thorough]
# 0: no violation in the runs made; 1: violation (replay file named);
# 3: no answer (the simulator could not be built or broke).
cd "$(dirname "$0")" || exit 3
SIM="$(./build.sh "$1")" || exit 3
exec "$SIM" check "$1" "${2:-${VERIF_TIER:-quick}}"
