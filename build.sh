#!/bin/bash
# Builds the simulator against /repo's working tree (offline).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET
unset ${!CARGO_PROFILE_*}
export CARGO_TARGET_DIR=$here/target
mkdir -p "$here/target"
exec 9> "$here/target/.lock"
flock 9
# Cargo trusts modification times; content is what counts here.
sum=$(cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum; cd "$here" && find sim rayon-core-sim -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$(cat "$here/target/.sum" 2>/dev/null)" != "$sum" ] || [ ! -x "$here/target/debug/dst" ]; then
    rm -f "$here/target/.sum"
    cd "$here/sim" || exit 2
    cargo clean --offline -p miniboosts -p dst > /dev/null 2>&1
    if ! cargo build --offline > "$here/target/build.log" 2>&1; then
        grep -E "^error" -A12 "$here/target/build.log" | head -60 >&2
        exit 2
    fi
    printf '%s' "$sum" > "$here/target/.sum"
fi
