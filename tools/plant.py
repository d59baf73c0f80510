"""Helper for writing planted bugs: plant(id, property, edits, demo, needs, breaks, hooked=False).

edits: list of (file under src, [(old, new), ...]); demo: body of main() of a small program on rust_systre."""
import json, os, subprocess, sys

S, W = '/verif/seeded', '/tmp/wt/repo'

SH = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$(dirname "$0")/demo.rs" "$d/src/main.rs"
[ -f "$PWD/Cargo.lock" ] && cp "$PWD/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rust-systre = { path = "$PWD" }
num-bigint = "0.4"
num-rational = "0.4"
num-traits = "0.2"
[workspace]
EOF
export REPO="$PWD"
cd "$d" && RUSTFLAGS="%s" CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" timeout %d cargo run --offline -q
'''


def plant(id, prop, edits, demo, needs, breaks, hooked=False, limit=240, pre='', bad=None):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    for f, reps in edits:
        p = f'{W}/src/{f}'
        s = open(p, newline='').read(); nl = '\r\n' if '\r\n' in s else '\n'; reps = [(a.replace('\n', nl), b.replace('\n', nl)) for a, b in reps]
        for a, b in reps:
            assert s.count(a) == 1, (id, a, s.count(a))
            s = s.replace(a, b)
        open(p, 'w', newline='').write(s)
    diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True).stdout
    subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
    d = f'{S}/{id}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(SH % ('--cfg systre_verif' if hooked else '', limit))
    if bad:  # a program that must not compile, after one that must
        open(d + '/bad.rs', 'w').write('#![allow(unused)]\n' + pre + '\nfn main() {\n' + bad.strip('\n') + '\n}\n')
        s = open(d + '/demo.sh').read().replace(' cargo run --offline -q\n', ' cargo build --offline -q || exit 1\ncp "$OLDPWD/.bad" src/main.rs\n')
        s = s.replace('cp "$OLDPWD/.bad" src/main.rs\n', 'cp "$bad" src/main.rs\n! timeout %d cargo build --offline -q 2>/dev/null\n' % limit)
        s = s.replace('mkdir "$d/src"', 'bad=$(cd "$(dirname "$0")" && pwd)/bad.rs\nmkdir "$d/src"').replace('cd "$d" && RUSTFLAGS="" CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" timeout', 'cd "$d" || exit 2\nexport CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}"\ntimeout')
        open(d + '/demo.sh', 'w').write(s)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.rs', 'w').write('#![allow(unused)]\n' + pre + '\nfn main() {\n' + demo.strip('\n') + '\n}\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(d + '/meta.json', 'w'), indent=1)
    print('planted', id)
