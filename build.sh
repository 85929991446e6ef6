#!/bin/bash
# build.sh [release]: engine, IR of the harness + real code, native replayer (all from the current trees)
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= CARGO_INCREMENTAL=0
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
B="$PWD/.build"
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
(cd engine && CARGO_TARGET_DIR="$B/engine" cargo build --release --offline -q 2>"$B/engine.log" || { cat "$B/engine.log" >&2; exit 1; }) &
P1=$!
(cd harness && CARGO_TARGET_DIR="$B/harness" cargo rustc --offline -q --lib -- --emit=llvm-bc 2>"$B/harness.log" || { cat "$B/harness.log" >&2; exit 1; }) &
P2=$!
(cd replay && CARGO_TARGET_DIR="$B/replay" cargo build --offline -q 2>"$B/replay.log" || { cat "$B/replay.log" >&2; exit 1; }
 if [ "$1" = release ]; then CARGO_TARGET_DIR="$B/replay" cargo build --release --offline -q 2>"$B/replay.log" || { cat "$B/replay.log" >&2; exit 1; }; fi) &
P3=$!
wait $P2
HS=$(grep -ohE 'fn (h_\w+)' harness/src/*.rs | awk '{print $2}' | sort -u | paste -sd,)
OPT=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt
[ -x "$OPT" ] || OPT=/root/.rustup/toolchains/$RUSTUP_TOOLCHAIN/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt
BC=$(ls -t "$B"/harness/debug/deps/vh*.bc | head -1)
if [ ! -e "$B/vh.ll" ] || [ "$BC" -nt "$B/vh.ll" ] || [ build.sh -nt "$B/vh.ll" ]; then
  "$OPT" -passes='internalize,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce' -internalize-public-api-list="$HS,vp_empty_string" -S -o "$B/vh.ll.tmp" "$BC"
  mv "$B/vh.ll.tmp" "$B/vh.ll"
fi
wait $P1; wait $P3
