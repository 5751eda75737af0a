#!/bin/bash
# Builds the simulator with the library from /repo's current working tree.
D="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=1
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cllvm-args=-tsan-distinguish-volatile -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Ctarget-cpu=x86-64-v2 -Aunused -Awarnings"
cd "$D" || exit 2
exec cargo build --offline --release -q -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu --target-dir "$D/../target" "$@"
