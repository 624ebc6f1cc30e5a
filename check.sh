#!/bin/bash
# check.sh <property id> [harness options]: builds the harness against /repo's
# current tree and runs one property. Exit 0 held, 1 violated (VIOLATION line).
# check.sh build: build only.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR="$here/target"
# cargo judges freshness by mtime: always hand the crates under test to rustc.
rm -rf "$here"/target/release/.fingerprint/{crylib,turtls}-*
log=$(mktemp)
if ! (cd "$here/harness" && cargo build --release --offline --locked >"$log" 2>&1); then
    tail -n 60 "$log" >&2
    rm -f "$log"
    echo "check.sh: the harness does not build" >&2
    exit 2
fi
rm -f "$log"
# For the checks of the library as it is shipped: the library itself, and a C
# program that uses it. If that does not build, the check T14 reports it.
case $1 in build | T14 | T15)
    art="$here/target/artifact"
    rm -rf "$art"/release/.fingerprint/{crylib,turtls}-* "$art/driver"
    if ! (cd /repo && CARGO_TARGET_DIR="$art" cargo build --release --offline --locked -p turtls >"$log" 2>&1); then
        tail -n 60 "$log" >&2
        rm -f "$log"
        echo "check.sh: the library does not build" >&2
        exit 2
    fi
    rm -f "$log"
    gcc -O1 -g -D_GNU_SOURCE -I/repo/include "$here/cdriver/driver.c" -o "$art/driver" \
        -L"$art/release" -lturtls -Wl,-rpath,"$art/release" >"$art/driver.log" 2>&1 || true
    ;;
esac
# For the checks of what is executed: a program that watches it.
case $1 in build | C11 | C12)
    rm -rf "$here"/target/ct/release/.fingerprint/{crylib,ct}-*
    if ! (cd "$here/ct" && CARGO_TARGET_DIR="$here/target/ct" cargo build --release --offline --locked >"$log" 2>&1); then
        tail -n 60 "$log" >&2
        rm -f "$log"
        echo "check.sh: the program that watches operations does not build" >&2
        exit 2
    fi
    rm -f "$log"
    ;;
esac
# For cryptography: the same as it is shipped, without run-time checks.
shipped=
case $1 in build | C0? | C10)
    rm -rf "$here"/target/shipped/.fingerprint/crylib-*
    if ! (cd "$here/harness" && cargo build --profile shipped --no-default-features --offline --locked >"$log" 2>&1); then
        tail -n 60 "$log" >&2
        rm -f "$log"
        echo "check.sh: the harness does not build for release" >&2
        exit 2
    fi
    rm -f "$log"
    shipped=1
    ;;
esac
[ "$1" = build ] && exit 0
# These take a second or two: more cases.
case $1 in C0[1-8]) more="--scale 4" ;; *) more= ;; esac
"$here/target/release/harness" $more "$@" --root "$here"
case " $* " in *" --replay "*) exit 0 ;; esac
[ -z "$shipped" ] || "$here/target/shipped/harness" "$@" --root "$here" --seed "$((${VERIF_SEED:-1} + 1000))" ${more:---scale 0.5}
