#!/bin/bash
# Build the simulator against /repo's current working tree, offline. Prints only errors.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$V/target"
unset CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$V/target"
exec 9> "$V/target/.check.lock"
flock 9
cd "$V/sim/harness" || exit 2
# Judge freshness by content, not by time stamps
now=$(cd /repo && find device hislip raw telnet vxi11 Cargo.toml -path '*/target' -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 \
    | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
stamp="$V/target/.repo-content"
if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
    rm -f "$stamp"
    cargo clean --release --offline -p lxi-device -p lxi-hislip -p lxi-socket -p lxi-telnet -p lxi-vxi11 -p lxisim > /dev/null 2>&1
fi
if ! cargo build --release --offline > "$V/target/build.log" 2>&1; then
    cat "$V/target/build.log" >&2
    echo "the simulator does not build against /repo" >&2
    exit 2
fi
echo "$now" > "$stamp"
