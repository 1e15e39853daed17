#!/bin/bash
# Which lines and branches of /repo/src the simulated runs never reach. usage: tools/cov.sh SECONDS [PROP...]
cd "$(dirname "$0")/.." || exit 2
secs=$1; shift; props=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C12 C13 C14 C15 C16 C17}
./build.sh build/cov cov >build/cov.log 2>&1 || { tail build/cov.log; exit 2; }
d=$(mktemp -d); export LLVM_PROFILE_FILE=$d/%p.profraw
for p in $props; do ./build/cov/sim --prop $p --seconds $secs --workers 8 --replays build | tail -1; llvm-profdata-18 merge -sparse $d/*.profraw -o $d/m.$p && rm -f $d/*.profraw; done
llvm-profdata-18 merge -sparse $d/m.* -o build/cov.profdata; rm -rf "$d"
llvm-cov-18 report build/cov/sim -instr-profile=build/cov.profdata
llvm-cov-18 show build/cov/sim -instr-profile=build/cov.profdata -show-branches=count >build/cov.txt
