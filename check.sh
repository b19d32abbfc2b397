#!/bin/bash
# check.sh PROPERTY [quick|thorough] — rebuild from /repo's working tree, then explore.
# Replay: check.sh replay FILE
cd "$(dirname "$0")" || exit 2
V="$PWD"
log=$(bash "$V/sim/build.sh" 2>&1) || { echo "$log"; echo "build of the simulation failed"; exit 2; }
export HX_VERIF="$V"
if [ "$1" = replay ]; then exec "$V/.cache/bin/hxdrv" replay "$2" ${3:+"$3"}; fi
exec "$V/.cache/bin/hxdrv" check "$1" -tier "${2:-${VERIF_TIER:-quick}}"
