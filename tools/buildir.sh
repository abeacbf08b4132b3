#!/bin/bash
# usage: buildir.sh REPO OUTDIR
# Compiles the library sources of the working tree to one LLVM module
# (OUTDIR/lib.ll: after local promotion; OUTDIR/raw.bc: unoptimised).
set -e
repo=$1 out=$2
rm -rf "$out/w" "$out"/*.bc
mkdir -p "$out/w"
cp -r "$repo/gen" "$repo/src" "$repo/data" "$repo/grapheme.h" "$out/w/"
cd "$out/w"
rm -f gen/*.h.tmp gen/*.o src/*.o
for g in gen/*.c; do
	b=$(basename "$g" .c)
	case $b in util|*-test) continue;; esac
	( clang-18 -w -O1 -std=c99 -D_DEFAULT_SOURCE -o "gen/$b" "gen/$b.c" gen/util.c && "gen/$b" >"gen/$b.h" ) &
	pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
pids=()
for s in src/*.c; do
	b=$(basename "$s" .c)
	clang-18 -w -std=c99 -D_ISOC99_SOURCE -O1 -Xclang -disable-llvm-passes -g -emit-llvm -c -o "$out/$b.bc" "$s" &
	pids+=($!)
done
if [ -n "$3" ]; then
	clang-18 -w -std=c99 -D_ISOC99_SOURCE -O1 -Xclang -disable-llvm-passes -g -emit-llvm -I. -c -o "$out/zz_harness.bc" "$3" &
	pids+=($!)
fi
for p in "${pids[@]}"; do wait $p; done
cd "$out"
llvm-link-18 -o raw.bc ./*.bc
opt-18 -passes='function(sroa,early-cse,simplifycfg)' -o lib.bc raw.bc
rm -rf w
