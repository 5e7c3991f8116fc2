#!/bin/bash
# check.sh <property> <quick|thorough>: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
P=$1; T=${2:-quick}
mkdir -p .work evidence
exec 9>.work/lock; flock 9
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
export CARGO_NET_OFFLINE=true
bash build.sh >.work/build.log 2>&1 || { tail -30 .work/build.log; echo "framework build failed"; exit 2; }
# MIR of the library as it is now (only the analysed crate is rebuilt)
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib MIRDUMP_OUT=$V/.work/mir.json
export CARGO_TARGET_DIR=$V/.work/target RUSTC_WORKSPACE_WRAPPER=$V/mirdump/target/debug/mirdump
rm -f .work/mir.json
cargo +nightly clean -q --offline --manifest-path /repo/Cargo.toml -p stratum-dsp >/dev/null 2>&1
cargo +nightly check -q --lib --offline --manifest-path /repo/Cargo.toml >.work/dump.log 2>&1
if [ ! -s .work/mir.json ]; then tail -30 .work/dump.log; echo "MIR extraction failed"; exit 2; fi
unset RUSTC_WORKSPACE_WRAPPER CARGO_TARGET_DIR
exec ./sa/target/release/sa check .work/mir.json "$P" "$T" evidence known_findings.txt
