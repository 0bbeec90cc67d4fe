#!/bin/bash
# check.sh ID [quick|thorough]   decide one property against the current tree of /repo
# check.sh replay FILE           run one recorded execution again
# check.sh build                 only build
set -u
cd "$(dirname "$0")" || exit 3
here=$PWD
export CARGO_TARGET_DIR="$here/build/target" RUSTFLAGS="--cfg volaris_mc" CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never MC_VERIF="$here" RUST_BACKTRACE=0
unset RUST_LIB_BACKTRACE
mkdir -p build out evidence
(
    flock 9
    # cargo judges by modification time; what counts is the content
    now=$( (cd /repo && find crates Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum;
            cd "$here/harness" && find . -type f -not -path './target/*' -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    if [ "$(cat build/stamp 2>/dev/null)" = "$now" ] && [ -x build/target/release/mc ] && [ -x build/target/release/volaris-cli ]; then
        exit 0
    fi
    rm -f build/stamp
    (cd harness && cargo clean --offline --release -p mc -p volaris-tools -p volaris-crypto >/dev/null 2>&1)
    if ! (cd harness && cargo build --offline --release >"$here/build/log" 2>&1); then
        tail -40 build/log >&2
        echo "build failed" >&2
        exit 5
    fi
    if [ -f harness/csrc/shim.c ]; then
        gcc -O1 -Wall -shared -fPIC -o build/target/release/libmcshim.so harness/csrc/shim.c -ldl || exit 5
    fi
    echo "$now" >build/stamp
) 9>build/lock || exit 5
case "${1:-}" in
build) exit 0 ;;
replay) exec build/target/release/mc replay "$2" ;;
list) exec build/target/release/mc list ;;
*) exec build/target/release/mc run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
