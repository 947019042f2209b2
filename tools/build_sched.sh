#!/bin/bash
# build_sched.sh BIN...: builds the schedule-exploring checks from /repo's working tree, offline.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTFLAGS=
export RUSTC_WRAPPER=/verif/sched/wrap.sh
export CARGO_TARGET_DIR=/verif/.build/sched
cd /verif/sched || exit 2
args=()
for b in "$@"; do args+=(--bin "$b"); done
exec cargo build --release --offline --locked "${args[@]}"
