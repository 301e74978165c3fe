#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch, demonstration, description) from the list below.
usage: plant.py [ID...]   (no check reads the result)"""
import json, os, subprocess, sys, textwrap, shutil
REPO = os.environ.get('PLANT_REPO', '/repo')
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
BUGS = []

DEMO_SH = '''#!/bin/bash
# Runs the demonstration beside this file against the library in the current directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
d="$(mktemp -d)"
trap 'rm -rf -- "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ebur128 = { path = "$repo", features = ["capi"] }
EOF
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet --release || exit 3
timeout 120 "$d/target/release/demo"
'''

PRE = '''#![allow(dead_code, unused_imports)]
use ebur128::{Channel, EbuR128, Mode};
/// Deterministic noise in -1..1.
fn noise(seed: u64, n: usize) -> Vec<f64> {
    let mut s = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            (s >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0
        })
        .collect()
}
fn scaled(seed: u64, n: usize, a: f64) -> Vec<f64> {
    noise(seed, n).into_iter().map(|x| x * a).collect()
}
fn near(what: &str, a: f64, b: f64, tol: f64) {
    println!("{}: {} vs {}", what, a, b);
    assert!(a == b || (a - b).abs() <= tol, "{}: {} vs {}", what, a, b);
}
'''

def bug(id, prop, edits, needs, breaks, demo, machine=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=textwrap.dedent(demo), machine=machine))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs.py')).read())

def main():
    want = sys.argv[1:]
    for b in BUGS:
        if want and b['id'] not in want:
            continue
        d = os.path.join(OUT, b['id'])
        os.makedirs(d, exist_ok=True)
        assert subprocess.run(['git', '-C', REPO, 'status', '--porcelain'], capture_output=True, text=True).stdout == ''
        try:
            for f, old, new in b['edits']:
                p = os.path.join(REPO, f)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
        finally:
            subprocess.run(['git', '-C', REPO, 'checkout', '--', '.'])
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        sh = DEMO_SH
        if b['machine']:
            # interpreted on another kind of machine
            sh = sh[:sh.index('export CARGO_TARGET_DIR')] + '''export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true XDG_CACHE_HOME="$d/cache"
unset RUSTFLAGS RUSTUP_TOOLCHAIN
timeout 280 cargo +nightly miri run --quiet --offline --target %s-unknown-linux-gnu
''' % b['machine']
        open(os.path.join(d, 'demo.sh'), 'w').write(sh)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.rs'), 'w').write(PRE + b['demo'])
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('wrote', b['id'])
main()
