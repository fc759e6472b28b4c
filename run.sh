#!/bin/bash
# run.sh build | run.sh Cxx [scenario] | run.sh replay FILE | run.sh conform [DEPTH]
# Builds the checks from /repo's current working tree (offline) and runs one. Every check runs
# twice: its quick tier on a plain release build (no debug assertions, wrapping arithmetic), then
# the tier asked for on a build with debug assertions and overflow checks.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$V CARGO_TARGET_DIR=$V/target CARGO_NET_OFFLINE=true
mkdir -p "$V/target"
build1() { # crate profile clean-extra
    cd "$V/$1" && cargo build --profile "$2" --offline -q 2>"$V/target/$1-$2.log" >&2 || {
        echo "BUILD-ERROR: $1 ($2)" >&2
        grep -A7 '^error' "$V/target/$1-$2.log" | head -60 >&2
        return 2
    }
}
build() { # crate clean-extra
    (
        flock 9
        # Content, not modification times, decides whether the crates under test are rebuilt.
        h=$(cd /repo && find . -name target -prune -o -name .git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
        if [ "$(cat "$V/target/$1.hash" 2>/dev/null)" != "$h" ]; then
            rm -f "$V/target/$1.hash"
            for p in release plain; do
                (cd "$V/$1" && cargo clean --offline --profile $p -q -p uwuhi $2) >/dev/null 2>&1
            done
        fi
        build1 "$1" plain 9>&- &
        b=$!
        build1 "$1" release 9>&- || exit 2
        wait $b || exit 2
        echo "$h" >"$V/target/$1.hash"
    ) 9>"$V/target/lock" || exit 2
}
ulimit -c 0
case "${1:-}" in C21 | C22 | C23 | C25) bin=mca x="-p uwuhi-async" ;; *) bin=mc x="" ;; esac
case "${1:-}" in
build)
    build mc ""
    build mca "-p uwuhi-async"
    ;;
conform) # not a check: the virtual OS against this host's kernel (real sockets, loopback only)
    build mc ""
    cd "$V" && exec target/release/mc "$@"
    ;;
replay)
    case $(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$2") in
    C21 | C22 | C23 | C25) bin=mca x="-p uwuhi-async" ;;
    esac
    prof=$(sed -n 's/.*"build": "\([a-z]*\)".*/\1/p' "$2")
    build $bin "$x"
    cd "$V" && exec target/${prof:-release}/$bin replay "$2"
    ;;
C*)
    build $bin "$x"
    cd "$V"
    rm -f "$V/target/plain-$1.json"
    VERIF_TIER=quick target/plain/$bin "$@" || exit $?
    exec target/release/$bin "$@"
    ;;
*)
    echo "usage: run.sh build | Cxx [scenario] | replay FILE | conform [DEPTH]" >&2
    exit 2
    ;;
esac
