#!/bin/bash
# Build the simulator against /repo's current working tree. "build.sh debug" also builds the variant
# with bardecoder's debug-images feature. Nothing is written to /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
cd "$here/sim" || exit 2
export CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER

one() {
    local dir="$1"
    shift
    # never trust time stamps: what depends on /repo is always compiled again
    rm -rf "$here/sim/$dir"/release/.fingerprint/bardecoder-* \
        "$here/sim/$dir"/release/.fingerprint/subject-* \
        "$here/sim/$dir"/release/.fingerprint/bdsim-*
    if ! cargo build --release --offline --locked --target-dir "$here/sim/$dir" "$@" >"$here/sim/$dir.log" 2>&1; then
        echo "build of the simulator failed" >&2
        tail -40 "$here/sim/$dir.log" >&2
        return 2
    fi
}

exec 9>"$here/sim/.build-lock"
flock 9
one target || exit 2
if [ "${1:-}" = debug ]; then
    one target-debug --features debug-images || exit 2
fi
exit 0
