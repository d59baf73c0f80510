#!/bin/bash
# usage: try_bug.sh ID...   Confirms planted bugs in a scratch copy: applies, builds, passes the tests,
# demo passes without and fails with it. With CHECK=1 also runs the property's check against /repo with the patch.
S=/verif/seeded W=/tmp/wt/repo
mkdir -p /tmp/wt
[ -d $W ] || cp -a /repo $W
(cd $W && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -fdqx -e target) || exit 2
export CARGO_NET_OFFLINE=true RUSTFLAGS= CARGO_TERM_COLOR=never
demo() { (cd $W && DEMO_TARGET=/tmp/wt/dt$([ -z "$2" ] || echo 2) timeout 300 bash "$1/demo.sh" >/tmp/wt/demo.log 2>&1); }
run() {
    local id=$1 d=$S/$1 t=/tmp/wt/demo-$1 r=""
    rm -rf "$t"; mkdir -p "$t"; cp "$d"/* "$t"/; rm -f "$t"/patch.diff "$t"/meta.json
    (cd $W && git checkout -q -- .)
    demo "$t" || r="$r demo-fails-clean"
    (cd $W && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; return; }
    (cd $W && cargo test --workspace --no-run --offline --locked -q --target-dir target >/tmp/wt/b.log 2>&1) || { echo "$id: does not build"; grep -A6 '^error' /tmp/wt/b.log | head -20; (cd $W && git checkout -q -- .); return; }
    (cd $W && cargo test --workspace --no-fail-fast --offline --locked -q --target-dir target >/tmp/wt/t.log 2>&1) || r="$r TESTS-FAIL($(grep -c 'panicked' /tmp/wt/t.log))"
    demo "$t" && r="$r demo-passes-with-bug"
    tail -1 /tmp/wt/demo.log | cut -c1-150 >/tmp/wt/last
    (cd $W && git checkout -q -- .)
    rm -rf "$t"
    if [ -z "$r" ] && [ -n "$CHECK" ]; then
        p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
        git -C /repo apply "$d/patch.diff" && (cd /verif && timeout 900 ./run.sh $p ${TIER:-quick} >/tmp/wt/c.log 2>&1); c=$?
        git -C /repo checkout -q -- .
        if [ $c = 1 ]; then r=" caught by $p"; else r=" MISSED by $p (exit $c)"; fi
    fi
    echo "$id:${r:- ok} [$(cat /tmp/wt/last)]"
}
for i in "$@"; do run "$i"; done
