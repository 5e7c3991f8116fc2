#!/bin/bash
# Builds the framework (MIR dump driver and analyser) from the committed files. Offline.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd mirdump && cargo +nightly build -q --offline) 
(cd sa && cargo build -q --offline --release)
