#!/bin/bash
# build.sh OUTDIR: compiles the library from /repo's working tree and the simulator into OUTDIR/sim
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="${REPO:-/repo}"
out="$1"
mkdir -p "$out/lib" "$out/sim.d"
CF="-O1 -g -std=c99 -fno-omit-frame-pointer -fsanitize=address -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores -D_GNU_SOURCE -w -Wno-error=implicit-function-declaration -Wno-error=int-conversion -Wno-error=incompatible-function-pointer-types -Wno-error=implicit-int -I$repo/include -I$repo/src"
CX="-g1 -std=c++17 -fno-omit-frame-pointer -fsanitize=address -D_GNU_SOURCE -Wall -I$repo/include -I$here/sim"
pids=()
objs=()
while IFS= read -r f; do
  o="$out/lib/$(echo "${f#$repo/src/}" | tr '/' '_').o"
  objs+=("$o")
  ( clang $CF -c "$f" -o "$o.raw" && objcopy --redefine-syms="$here/sim/redefine.syms" "$o.raw" "$o" ) &
  pids+=($!)
done < <(find "$repo/src" -name '*.c' | sort)
for f in disk env exec gen main plan ref; do
  opt=-O1; case $f in exec|gen|main) opt=-O0;; esac
  ( clang++ $opt $CX -c "$here/sim/$f.cpp" -o "$out/sim.d/$f.o" ) &
  pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
clang++ -fsanitize=address -o "$out/sim" "$out"/sim.d/*.o "${objs[@]}" $(sed "s/^/-Wl,--defsym=/" "$here/sim/aliases") -lpthread
