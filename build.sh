#!/bin/bash
# Builds the simulator around the library sources of /repo's working tree.
# usage: build.sh OUTDIR [fine|cov]      (fine: also instruments loads and stores; cov: source coverage for tools/cov.sh)
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=${SIM_REPO:-/repo}; out=$1; mode=${2:-}
mkdir -p "$out/lib" "$out/obj"
rm -f "$out"/lib/*.o
cov=trace-pc-guard; prof=
[ "$mode" = fine ] && cov=trace-pc-guard,trace-loads,trace-stores
san="-fsanitize=address,bounds,null,unreachable,return,signed-integer-overflow,shift-exponent,integer-divide-by-zero -fno-sanitize-recover=all -fno-omit-frame-pointer"
[ "$mode" = cov ] && { prof="-fprofile-instr-generate -fcoverage-mapping"; san=; }
ver="-DVERSION_MAJOR=$(sed -n 's/^VERSION_MAJOR *= *//p' $repo/Makefile) -DVERSION_MINOR=$(sed -n 's/^VERSION_MINOR *= *//p' $repo/Makefile) -DVERSION_PATCH=$(sed -n 's/^VERSION_PATCH *= *//p' $repo/Makefile) -DVERSION_DEVEL=$(sed -n 's/^VERSION_DEVEL *= *//p' $repo/Makefile)"
redef=""; for f in malloc calloc realloc free strdup strndup fopen fclose remove unlink rename truncate fprintf vfprintf fputs fputc putc fwrite printf vprintf puts putchar strtod strtof strtold atof sprintf snprintf vsprintf vsnprintf localeconv; do redef="$redef --redefine-sym $f=simc_$f"; done
yredef=""; for f in malloc calloc realloc free strdup; do yredef="$yredef --redefine-sym $f=simy_$f"; done
pids=()
for c in $repo/src/*.c; do
  o="$out/lib/$(basename "$c" .c).o"
  ( clang -std=c11 -g1 -O1 -w $ver -I$repo/include -I$repo/src $san -fsanitize-coverage=$cov $prof -c "$c" -o "$o" && objcopy $redef "$o" ) & pids+=($!)
done
for c in "$here"/sim/*.cpp; do
  o="$out/obj/$(basename "$c" .cpp).o"
  [ -n "$SIM_REUSE" ] && [ "$o" -nt "$c" ] && [ "$o" -nt "$here/sim/sim.h" ] && [ "$o" -nt "$here/sim/ops.h" ] && [ "$o" -nt "$repo/include/cyaml/cyaml.h" ] && continue
  clang++ -std=c++17 -g1 -O1 -Wall -I$repo/include -fsanitize=address -fno-omit-frame-pointer -c "$c" -o "$o" & pids+=($!)
done
for m in first last; do clang -c "$here/sim/$m.s" -o "$out/$m.o"; done
cp /usr/lib/x86_64-linux-gnu/libyaml.a "$out/libyaml.a"
objcopy $yredef "$out/libyaml.a"
for p in "${pids[@]}"; do wait $p; done
clang++ $prof -fsanitize=address,undefined "$out"/obj/*.o "$out/first.o" $(ls "$out"/lib/*.o | sort) "$out/last.o" "$out/libyaml.a" -lpthread -o "$out/sim.tmp$$"
mv "$out/sim.tmp$$" "$out/sim"
