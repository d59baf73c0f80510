#!/bin/bash
# usage: run.sh <property> <quick|thorough> | run.sh --build | run.sh --replay FILE
# Builds the harness against /repo's working tree and runs one check.
# exit 0: held; 1: VIOLATION; 2: could not be decided (build failure etc.)
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
REPO=${VERIF_REPO:-/repo}
# Cargo compares time stamps; compare contents as well.
fresh() { # target dir
    local h
    h=$( (cd "$REPO" && find src Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum) | sha256sum)
    if [ "$(cat "$1/.repo-hash" 2>/dev/null)" != "$h" ]; then
        (cd harness && cargo clean --offline -q --release -p rust-systre --target-dir "$1") >/dev/null 2>&1
        mkdir -p "$1" && echo "$h" >"$1/.repo-hash"
    fi
}
build() { # package...
    local t="$VERIF_ROOT/target" p=() f="" log
    if [ "$1" = hooked ]; then t="$VERIF_ROOT/target-hooked"; f="--cfg systre_verif"; fi
    for x in "$@"; do p+=(-p "$x"); done
    fresh "$t"
    log=$(cd harness && RUSTFLAGS="$f -Awarnings" cargo build --release --offline -q "${p[@]}" --target-dir "$t" 2>&1) ||
        { echo "build failed"; echo "$log" | tail -40; exit 2; }
    BIN="$t/release/$1"
}
crate() {
    case "$1" in
        C0[1-9]|C1[0-4]|C42|C43) echo graph ;;
        C1[5-9]|C2[0-4]) echo linalg ;;
        C2[5-9]|C3[0-5]|C4[5-7]) echo geom ;;
        C36|C37|C38|C44) echo hooked ;;
        C39|C40|C41) echo io ;;
        *) exit 2 ;;
    esac
}
if [ "$1" = --build ]; then
    build graph linalg geom io
    build hooked
    exit 0
fi
if [ "$1" = --replay ]; then
    id=$(basename "$2" | cut -d- -f1)
    k=$(crate "$id") || exit 2
    build "$k"
    exec "$BIN" "$id" quick --replay "$2"
fi
k=$(crate "$1") || { echo "unknown property $1"; exit 2; }
build "$k"
[ "$1" = C47 ] && export VERIF_CASE_LIMIT=${VERIF_CASE_LIMIT:-600}
ulimit -v $((24 << 20)) 2>/dev/null
exec "$BIN" "$1" "${2:-quick}"
