#!/bin/bash
# run.sh setup | check ID | replay FILE
# Builds the simulator against the current working tree of /repo (outside /repo) and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
ulimit -c 0

# build FLAVOUR: plain, or inst (scheduling points compiled into library code)
build() {
    local fl=$1 dir=$here/target/$1 args=() sum
    mkdir -p "$dir"
    exec 9>"$dir/.lock"
    flock 9
    if [ "$fl" = inst ]; then
        export RUSTC_WRAPPER=$here/sim/rustc-inst.sh
        args=(--features inst)
    else
        export RUSTC_WRAPPER=
    fi
    # content decides, not time stamps
    sum=$(cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
    if [ "$(cat "$dir/.sum" 2>/dev/null)" != "$sum" ]; then
        (cd "$here/sim" && CARGO_TARGET_DIR=$dir cargo clean --release --offline -p tclifford -p tcsim >/dev/null 2>&1)
    fi
    if ! (cd "$here/sim" && CARGO_TARGET_DIR=$dir cargo build --release --offline "${args[@]}" >"$dir/build.log" 2>&1); then
        grep -E '^error' -A8 "$dir/build.log" | head -60 >&2
        echo "build failed, see $dir/build.log" >&2
        exit 2
    fi
    echo "$sum" >"$dir/.sum"
    flock -u 9
    exec 9>&-
}
flavour() {
    case $1 in
        C07 | C08) echo inst ;;
        *) echo plain ;;
    esac
}

case ${1:-} in
    setup)
        build plain
        (build inst)
        ;;
    check)
        f=$(flavour "$2")
        build "$f"
        exec "$here/target/$f/release/tcsim" check "$2"
        ;;
    replay)
        f=$(flavour "$(sed -n 's/^property //p' "$2" | head -1)")
        build "$f"
        exec "$here/target/$f/release/tcsim" replay "$2"
        ;;
    *)
        echo "usage: run.sh setup | check ID | replay FILE" >&2
        exit 2
        ;;
esac
