#!/bin/bash
# build_harness.sh BIN...: builds the given check binaries from /repo's working tree, offline.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR=/verif/.build/harness
cd /verif/harness || exit 2
args=()
for b in "$@"; do args+=(--bin "$b"); done
exec cargo build --release --offline --locked "${args[@]}"
