#!/bin/bash
# Builds the real program and C library from /repo's working tree, outside of /repo.
here=$(cd "$(dirname "$0")" && pwd)
target="$here/harness/target/real"
cd / || exit 2
unset RUSTFLAGS CED_GEN_CHEADER
export CARGO_NET_OFFLINE=true
# the build script of remote-ffi starts a `cargo fmt` which could touch tracked files
export RUSTFMT=/bin/true
if [ ! -e /repo/remote-ffi/src/ffi.rs ] && [ -d "$target" ]; then
    cargo clean --offline --locked --manifest-path /repo/Cargo.toml --target-dir "$target" -p remote-ffi
fi
log=$(mktemp)
if ! cargo build --offline --locked --manifest-path /repo/Cargo.toml --target-dir "$target" \
    -p ced -p remote-ffi --bin ced --lib >"$log" 2>&1; then
    grep -E "^error" -A12 "$log" | head -60
    tail -5 "$log"
    rm -f "$log"
    exit 2
fi
rm -f "$log"
