#!/bin/bash
# check.sh build | check.sh check PROPERTY quick|thorough | check.sh replay FILE
# Rebuilds the simulator with /repo's current working tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$here/harness/rustc-wrap.sh"
export CARGO_TARGET_DIR="$here/harness/target"
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
repo=/repo

build() {
    # cargo trusts modification times; a restored or copied tree may carry old ones
    local stamp="$CARGO_TARGET_DIR/source.sha" now
    now=$( (cat "$repo/Cargo.toml" "$here/harness/rustc-wrap.sh"; cd "$repo" && find src -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    mkdir -p "$CARGO_TARGET_DIR"
    (
        flock 9
        if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
            rm -f "$stamp"
            cargo clean --offline -q --manifest-path "$here/harness/Cargo.toml" -p bsplines 2>/dev/null
        fi
        cargo build --offline -q --manifest-path "$here/harness/Cargo.toml" 2>"$CARGO_TARGET_DIR/build.log" || exit 1
        echo "$now" >"$stamp"
    ) 9>"$CARGO_TARGET_DIR/lock" || { cat "$CARGO_TARGET_DIR/build.log" >&2; echo "the harness does not build" >&2; exit 2; }
}

case "$1" in
build)
    build
    ;;
check)
    build
    seed="${VERIF_SEED:-1}"
    if [ "${3:-$VERIF_TIER}" = thorough ]; then
        limits="--runs 100000000 --seconds 600 --tier thorough"
    else
        limits="--runs 40000 --seconds 60 --tier quick"
    fi
    # shellcheck disable=SC2086
    exec "$CARGO_TARGET_DIR/debug/bsim" check "$2" --seed "$seed" --out "$here" $limits
    ;;
replay)
    build
    exec "$CARGO_TARGET_DIR/debug/bsim" replay "$2"
    ;;
*)
    echo "usage: $0 build | check PROPERTY quick|thorough | replay FILE" >&2
    exit 2
    ;;
esac
