#!/bin/bash
cd /verif/sim/harness; RUSTUP_TOOLCHAIN=stable RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target cargo build --release --offline "$@" 2>&1 | grep -vE "^\s*(Compiling|Finished)" | head -${LINES_MAX:-80}
