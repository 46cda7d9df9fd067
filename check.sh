#!/bin/bash
# check.sh setup            build everything
# check.sh CNN quick|thorough
# check.sh replay FILE      repeat a violation
# check.sh selftest N       same seeds, same executions
# Exit 0: held, 1: violation, anything else: error of the check
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable} CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_TARGET_DIR=$here/target GSIM_ROOT=$here
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
[ -f "$HOME/.cargo/env" ] && . "$HOME/.cargo/env"

build() {
    mkdir -p "$here/target" "$here/out" "$here/evidence" || return 1
    # file times are not reliable: always build the crates of the repository
    find "$here/target" -path '*/.fingerprint/*' -maxdepth 4 -type d \
        -name 'gift*' -exec rm -rf {} + 2>/dev/null
    (cd "$here/sim" && cargo build --release --offline -q) \
        >"$here/out/build.log" 2>&1 || return 1
    if [ ! -f "$here/sim/shim/shim.c" ]; then return 0; fi
    case "$1" in all | C19 | C23)
        if [ "$1" != C23 ]; then
            (cd "$here/../repo" && CARGO_TARGET_DIR=$here/target/cli \
                cargo build --offline -q -p gift-bin) \
                >>"$here/out/build.log" 2>&1 || return 1
        fi
        if [ "$1" != C19 ]; then
            (cd "$here/../repo" && CARGO_TARGET_DIR=$here/target/cli \
                cargo build --offline -q -p gift --examples) \
                >>"$here/out/build.log" 2>&1 || return 1
        fi
        gcc -O1 -shared -fPIC -o "$here/target/shim.so" \
            "$here/sim/shim/shim.c" -ldl >>"$here/out/build.log" 2>&1 ||
            return 1
        ;;
    esac
}

(
    flock 9
    case "$1" in
    setup) build all ;;
    replay) build all ;;
    selftest) build all ;;
    C[0-9][0-9]) build "$1" ;;
    *) false ;;
    esac
) 9>"$here/.lock" || {
    echo "error of the check: build failed" >&2
    tail -30 "$here/out/build.log" >&2
    exit 2
}
sim=$here/target/release/giftsim
case "$1" in
setup) exit 0 ;;
replay) exec "$sim" replay "$2" ;;
selftest) exec "$sim" selftest "${2:-200}" ;;
*) exec "$sim" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
