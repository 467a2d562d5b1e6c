#!/bin/bash
# check.sh <property> [--replay FILE | --case TEXT]: rebuilds from /repo's working tree, then checks.
# check.sh --build only builds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$here/../repo
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_TARGET_DIR=$here/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS
mkdir -p "$here/target"
bin=$here/target/release/symcheck
stamp=$here/target/symcheck.stamp

sources() {
    { find "$repo/src" "$here/subject" "$here/oracle" "$here/harness" -type f -not -path '*/target/*'; } |
        LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum
    rustc --version
}

build() {
    local now log
    now=$(sources)
    if [ -x "$bin" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$now" ]; then
        return 0
    fi
    rm -f "$stamp"
    # Never trust time stamps for the code under test.
    rm -rf "$here"/target/release/.fingerprint/symbolic_rust-* "$here"/target/release/.fingerprint/symcheck-* \
        "$here"/target/release/.fingerprint/oracle-*
    log=$here/target/build.$$.log
    if ! (cd "$here/harness" && cargo build --release --offline --locked) >"$log" 2>&1; then
        cat "$log" >&2
        rm -f "$log"
        return 1
    fi
    rm -f "$log"
    echo "$now" >"$stamp"
}

{
    flock 9
    build || { echo "check.sh: the build failed" >&2; exit 2; }
} 9>"$here/target/.lock"
[ "${1:-}" = --build ] && exit 0
# Runaway recursion or allocation ends the worker instead of the machine.
ulimit -v 25000000 2>/dev/null
exec "$bin" "$@"
