#!/usr/bin/env python3
"""Edits that change no behaviour, to try the checks with: writes refactors/<id>.diff (scratch copy; tests must pass).
Format of tools/refactors.txt:  === id: properties / file / <<< old === new >>>"""
import os, re, shutil, subprocess, sys
S, V = "/tmp/refrepo", "/verif/refactors"
txt = open("/verif/tools/refactors.txt").read()
only = sys.argv[1:]
if os.path.isdir(S):
    shutil.rmtree(S)
subprocess.run(["cp", "-a", "/repo", S], check=True)
for blk in re.split(r"^@@@ ", txt, flags=re.M)[1:]:
    head, body = blk.split("\n", 1)
    rid, props = [x.strip() for x in head.split(":")]
    if only and rid not in only:
        continue
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=S)
    f = None
    for m in re.finditer(r"^FILE (\S+)\n|^<<<\n(.*?)\n===\n(.*?)^>>>$", body, re.M | re.S):
        if m.group(1):
            f = os.path.join(S, m.group(1))
            continue
        t = open(f).read()
        old, new = m.group(2), m.group(3).rstrip("\n")
        assert t.count(old) == 1, "%s: %d matches for %r" % (rid, t.count(old), old)
        open(f, "w").write(t.replace(old, new))
    r = subprocess.run("cargo build --workspace --offline && cargo test --workspace --offline", shell=True, cwd=S, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    n = len(re.findall(r"^test .* ok$", r.stdout, re.M))
    print(rid, "ok" if r.returncode == 0 and n == 19 else "FAILS\n" + r.stdout[-1500:], flush=True)
    if r.returncode == 0:
        d = subprocess.run(["git", "diff"], cwd=S, stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(V, rid + ".diff"), "w").write("# " + props + "\n" + d)
shutil.rmtree(S)
