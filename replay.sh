#!/bin/bash
# replay.sh FILE [--trace]: re-executes a replay file against /repo's current
# working tree. Exit 10 and the violation if it reproduces, 0 if not.
F="$(realpath "$1")"; shift
cd "$(dirname "$0")" || exit 3
P="$(grep -o 'prop=C[0-9]*' "$F" | head -1)"
SIM="$(./build.sh "${P#prop=}")" || exit 3
exec "$SIM" replay "$F" "$@"
