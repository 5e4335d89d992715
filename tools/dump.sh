#!/bin/bash
# dumps the MIR of the harness crate + everything reachable from /repo's current sources
set -e
W=${WORK:-/verif/.work}
OUT=${1:-$W/dump.json}
SYS=$(RUSTUP_TOOLCHAIN=nightly rustc --print sysroot)
cd /verif/contracts
case ",$FEATURES," in *,pyo3,*) export MIRDUMP_EXTRA_CRATES=dess,dess_examples PYO3_PYTHON=/usr/bin/python3.12;; esac
touch src/lib.rs
rm -f "$OUT"; rm -rf $W/dump/debug/build/dess $W/dump/debug/build/dess-proc-macros $W/dump/debug/build/dess-examples
RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$W/dump RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off -Awarnings" LD_LIBRARY_PATH=$SYS/lib RUSTC_WRAPPER=$W/driver/debug/mirdump MIRDUMP_CRATE=vh MIRDUMP_OUT=$OUT MIRDUMP_CUTS=/verif/driver/cuts.txt cargo check ${FEATURES:+--no-default-features --features "$FEATURES"} --lib --offline -q
