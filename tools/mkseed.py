#!/usr/bin/env python3
"""Builds and confirms the planted changes of tools/seeds.py into /verif/seeded/<id>/.
usage: mkseed.py [ID...]   (works on a scratch copy under /tmp; nothing in /repo is touched)"""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
S = "/tmp/seedrepo"
V = "/verif/seeded"
HELP = '''#![allow(dead_code, unused_imports)]
use texpresso::*;
/// encode one block
fn enc(f: Format, px: &[[u8; 4]; 16], mask: u32, a: Algorithm, w: [f32; 3], aw: bool) -> Vec<u8> {
    let mut out = vec![0u8; f.block_size()];
    f.compress_block_masked(*px, mask, Params { algorithm: a, weights: w, weigh_colour_by_alpha: aw }, &mut out);
    out
}
fn rt(f: Format, px: &[[u8; 4]; 16], mask: u32, a: Algorithm, w: [f32; 3], aw: bool) -> [[u8; 4]; 16] {
    f.decompress_block(&enc(f, px, mask, a, w, aw))
}
const U: [f32; 3] = [1.0, 1.0, 1.0];
fn rng(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; *s }
'''
DEMO = '''#!/bin/bash
# builds main.rs against ./lib in a scratch directory and runs it
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$H/main.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
texpresso = { path = "$R/lib"@FEAT@ }
EOF
cd "$D"
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$D/target" cargo run -q --offline
'''


def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ids = sys.argv[1:] or [s["id"] for s in SEEDS]
    if os.path.isdir(S):
        shutil.rmtree(S)
    sh(["cp", "-a", "/repo", S])
    for s in SEEDS:
        if s["id"] not in ids:
            continue
        sh(["git", "checkout", "--", "."], cwd=S)
        for f, old, new in s["edits"]:
            p = os.path.join(S, f)
            t = open(p).read()
            assert t.count(old) == s.get("n", 1), "%s: %d matches for %r" % (s["id"], t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(V, s["id"])
        os.makedirs(d, exist_ok=True)
        diff = sh(["git", "diff"], cwd=S).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if "script" in s:
            open(os.path.join(d, "demo.sh"), "w").write(s["script"])
        else:
            open(os.path.join(d, "main.rs"), "w").write(HELP + s["main"])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@FEAT@", s.get("feat", "")))
        for n, txt in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(txt)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        b = sh(["bash", "-c", "cargo build --workspace --offline && cargo test --workspace --offline --no-fail-fast"], cwd=S)
        npass = len(re.findall(r"^test .* ok$", b.stdout, re.M))
        bad = sh(["bash", os.path.join(d, "demo.sh")], cwd=S)
        sh(["git", "checkout", "--", "."], cwd=S)
        sh(["cargo", "build", "--workspace", "--offline"], cwd=S)
        good = sh(["bash", os.path.join(d, "demo.sh")], cwd=S)
        ok = b.returncode == 0 and bad.returncode != 0 and good.returncode == 0
        print("%-26s %s build+tests rc %d (%d ok)  demo with patch rc %d, without rc %d" % (s["id"], "CONFIRMED" if ok else "REJECTED ", b.returncode, npass, bad.returncode, good.returncode), flush=True)
        if not ok:
            print((b.stdout[-600:] if b.returncode else "") + "\n with: " + bad.stdout[-300:] + "\n without: " + good.stdout[-600:])
            shutil.rmtree(d)
    shutil.rmtree(S)


main()
