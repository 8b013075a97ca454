#!/bin/bash
# check.sh <property> [quick|thorough]: builds the simulator with /repo's current working tree and decides the property.
here="$(cd "$(dirname "$0")" && pwd)"
repo="${SIM_REPO:-/repo}"
out="$here/build/o"
mkdir -p "$out" "$here/evidence" "$here/replays"
(
  flock 9
  python3 "$here/sim/mkninja.py" "$repo" "$out" && ninja -C "$out" >"$out/build.log" 2>&1
) 9>"$here/build/lock" || { echo "build failed"; tail -40 "$out/build.log"; exit 2; }
[ "$1" = build ] && exit 0
exec env SIM_VERIF="$here" "$out/simrun" check "$1" "${2:-${VERIF_TIER:-quick}}"
