#!/bin/bash
# Dump the typed THIR of /repo's current working tree to $1 (JSON).
set -e
V=$(cd "$(dirname "$0")/.." && pwd); REPO=${REPO:-/repo}
SR=$(rustc +nightly --print sysroot)
ED=$(sed -n 's/^edition *= *"\(.*\)"/\1/p' $REPO/Cargo.toml | head -1)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH=$SR/lib
TD="$V/build/thirdump/debug/thirdump"
THIRDUMP_CONT=1 THIRDUMP_OUT="$1" THIRDUMP_CRATE=rmath "$TD" rustc --crate-name rmath --emit=metadata \
  --edition=${ED:-2018} --crate-type lib --cap-lints allow --sysroot "$SR" --cfg 'rmath_avx2="support"' --out-dir "$T" $REPO/src/lib.rs
# the expansions of the exported generator macros
THIRDUMP_OUT="$1.macros" THIRDUMP_CRATE=vp_macros "$TD" rustc --crate-name vp_macros --emit=metadata --extern rmath="$T/librmath.rmeta" \
  --edition=${ED:-2018} --crate-type lib --cap-lints allow --sysroot "$SR" --out-dir "$T" "$V/specs/macros.rs" || rm -f "$1.macros"
