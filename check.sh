#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the simulator around /repo's working tree and searches for a violation of one property.
# exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
id=$1; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
case $tier in thorough) secs=${SIM_SECONDS:-660} ;; *) tier=quick; secs=${SIM_SECONDS:-45} ;; esac
mode=; out=build/plain; [ "$id" = C09 ] && { mode=fine; out=build/fine; }
mkdir -p build evidence replays
exec 9>"$out.lock"; flock 9
if ! ./build.sh "$out" $mode >"$out.log" 2>&1; then tail -30 "$out.log"; echo "build failed"; exit 2; fi
cp "$out/sim" "build/sim-$id" || exit 2
flock -u 9
exec ./build/sim-$id --prop "$id" --tier "$tier" --seed "$seed" --seconds "$secs" --workers "$(nproc)" \
  --evidence "evidence/$id.json" --replays replays --known known_findings.txt
