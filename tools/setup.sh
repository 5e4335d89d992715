#!/bin/bash
# builds the MIR dumper; everything else is rebuilt by each check from /repo's current tree
set -e
mkdir -p /verif/.work
cd /verif/driver
RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.work/driver RUSTFLAGS=-Awarnings cargo build -q --offline
