#!/usr/bin/env python3
"""Decides one property of /repo:   check.py <ID> [--tier quick|thorough]

exit 0: every obligation generated from /repo's current source was discharged
        (or, where no obligation could be generated / decided, the labelled
        bounded stand-in held; the evidence file says which)
exit 1: a line  VIOLATION property=<ID> replay=<path>[ no-failing-input-found]
exit 2: the check itself could not run (e.g. /repo does not build)
"""
import argparse, json, os, re, subprocess, sys, time, shutil, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TEXPRESSO_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402
import verus_run  # noqa: E402

MODULES = ["root", "alpha", "colourblock", "colourset", "range", "single", "cluster", "math"]
KRUST = "--cfg texpresso_verif -Zcrate-attr=recursion_limit=\"512\""
KFLAGS = ["--no-assertion-reach-checks", "--no-memory-safety-checks", "--no-overflow-checks"]


def env(rustflags=None, **kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del e[k]
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC_WRAPPER", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin"
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    e.update(kw)
    return e


def sh(cmd, timeout, **kw):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True, errors="replace", **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = -9
    return rc, out, time.time() - t0


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ Kani

def inc_dir(group):
    """The directory the guarded include points in /repo read from."""
    d = os.path.join(BUILD, group, "inc")
    os.makedirs(d, exist_ok=True)
    parts = group.split("+")
    for m in MODULES:
        txt = ""
        for g in parts:
            src = os.path.join(VERIF, "kani", g, m + ".rs")
            if os.path.exists(src):
                txt += open(src).read()
        put(os.path.join(d, m + ".rs"), txt)
    put(os.path.join(d, "spec.rs"), open(os.path.join(VERIF, "spec", "spec.rs")).read())
    put(os.path.join(d, "fcmp.rs"), nested_fn(os.path.join(REPO, "lib/src/colourfit/cluster.rs"), "fcmp"))
    cdir = os.path.join(VERIF, "kani", "common")
    for f in sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []:
        put(os.path.join(d, f), open(os.path.join(cdir, f)).read())
    return d


def nested_fn(path, name):
    """The text of a function local to another function, from the current source."""
    src = open(path).read() if os.path.exists(path) else ""
    m = re.search(r"\bfn\s+%s\b" % name, src)
    if not m:
        return "// %s not found\n" % name
    i = src.index("{", m.end())
    depth, j = 0, i
    while j < len(src):
        depth += {"{": 1, "}": -1}.get(src[j], 0)
        j += 1
        if depth == 0:
            break
    return src[m.start():j] + "\n"


def put(path, txt):
    if os.path.exists(path) and open(path).read() == txt:
        return
    open(path, "w").write(txt)


def kani_cmd(group, names, extra):
    cmd = ["cargo", "kani", "-p", "texpresso", "--target-dir", os.path.join(BUILD, group, "target"), "--exact"]
    for n in names:
        cmd += ["--harness", n]
    return cmd + KFLAGS + ["-Z", "stubbing", "-Z", "unstable-options"] + extra


def run_kani(group, harnesses, timeout, jobs=8):
    """-> {harness: {status, checks, failed[], time, covers, out}}"""
    e = env(KRUST, TEXPRESSO_VERIF_DIR=inc_dir(group))
    cmd = kani_cmd(group, harnesses, ["--harness-timeout", "%ds" % timeout, "-j", str(jobs), "--output-format", "terse"])
    rc, out, dt = sh(cmd, timeout * (1 + len(harnesses) // jobs) + 120, cwd=REPO, env=e)
    res = {h: dict(status="error", checks=0, failed=[], time=0.0, covers=None, out="") for h in harnesses}
    cur, buf = {}, {}
    tid = None
    for line in out.splitlines():
        m = re.match(r"Thread (\d+): ?(.*)", line)
        if m:
            tid, line = m.group(1), m.group(2)
        m = re.search(r"Checking harness (\S+?)\.\.\.", line)
        if m:
            cur[tid] = m.group(1)
        h = cur.get(tid)
        if h not in res:
            continue
        r = res[h]
        r["out"] += line + "\n"
        m = re.search(r"\*\* (\d+) of (\d+) failed", line)
        if m:
            r["checks"] = int(m.group(2))
            r["nfailed"] = int(m.group(1))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            r["covers"] = (int(m.group(1)), int(m.group(2)))
        m = re.match(r"Failed Checks: (.*)", line)
        if m:
            r["failed"].append(m.group(1))
        m = re.search(r"Verification Time: ([\d.]+)", line)
        if m:
            r["time"] = float(m.group(1))
        if "VERIFICATION:- SUCCESSFUL" in line:
            r["status"] = "verified"
        elif "VERIFICATION:- FAILED" in line:
            r["status"] = "failed"
        if "timed out" in line.lower() or "CBMC timed out" in line:
            r["timeout"] = True
    for h, r in res.items():
        if r["status"] == "failed":
            if r.get("timeout") or not r["failed"]:
                r["status"] = "undecided"  # timeout / out of memory: not a refutation
            elif all(tool_limit(f) for f in r["failed"]):
                r["status"] = "undecided"
        if r["status"] == "verified":
            if r["checks"] == 0 or (r["covers"] and r["covers"][0] == 0):
                r["status"] = "vacuous"
    if all(r["status"] == "error" for r in res.values()):
        for r in res.values():
            r["out"] = tail(out, 60)
    return res, " ".join(cmd)


def tool_limit(desc):
    """failures that say the verifier gave up, not that the code is wrong"""
    d = desc.lower()
    return "unwinding assertion" in d or "not currently supported" in d or "unsupported" in d


def playback(group, harness, timeout):
    """counterexample of a failed harness as one byte string per kani::any(), in call order"""
    e = env(KRUST, TEXPRESSO_VERIF_DIR=inc_dir(group))
    cmd = kani_cmd(group, [harness], ["-Z", "concrete-playback", "--concrete-playback=print",
                                      "--harness-timeout", "%ds" % timeout])
    rc, out, dt = sh(cmd, timeout + 60, cwd=REPO, env=e)
    res = []
    for blk in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        vals = []
        for m in re.finditer(r"^\s*vec!\[([\d, ]*)\]", blk, re.M):
            vals += [int(x) for x in m.group(1).split(",") if x.strip()]
        res.append(vals)
    return res, out


# ------------------------------------------------------------------ native

def build_native(rayon):
    tgt = os.path.join(BUILD, "native-rayon" if rayon else "native")
    cmd = ["cargo", "build", "--manifest-path", os.path.join(VERIF, "native", "Cargo.toml"), "--target-dir", tgt]
    if rayon:
        cmd += ["--features", "rayon"]
    rc, out, dt = sh(cmd, 300, cwd=os.path.join(VERIF, "native"), env=env())
    exe = os.path.join(tgt, "debug", "vnative")
    if rc != 0 or not os.path.exists(exe):
        return None, out
    return exe, out


def literals():
    vals = set()
    for root, _, files in os.walk(os.path.join(REPO, "lib", "src")):
        for f in files:
            if not f.endswith(".rs") or f in ("single_lut.rs", "test_data.rs"):
                continue
            s = open(os.path.join(root, f), errors="replace").read()
            s = re.sub(r"//[^\n]*", "", s)
            for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|size))?\b", s):
                try:
                    vals.add(int(m.group(1).replace("_", ""), 0))
                except ValueError:
                    pass
    p = os.path.join(BUILD, "literals.txt")
    os.makedirs(BUILD, exist_ok=True)
    open(p, "w").write(" ".join(str(v) for v in sorted(vals)))
    return p


def native_search(exe, prop, secs, seed):
    rc, out, dt = sh([exe, "search", prop, str(secs), str(seed), literals()], secs + 120, env=env())
    m = re.search(r"CASES (\d+) NONTRIVIAL (\d+)", out)
    r = dict(cases=int(m.group(1)) if m else 0, nontrivial=int(m.group(2)) if m else 0, secs=dt, fail=None, sample="")
    m = re.search(r"^SAMPLE (.*)$", out, re.M)
    if m:
        r["sample"] = m.group(1)
    if rc == 1 and "FAIL" in out:
        r["fail"] = (re.search(r"^FAIL (.*)$", out, re.M).group(1), re.search(r"^CASE (.*)$", out, re.M).group(1))
    elif rc != 0:
        r["error"] = tail(out, 5)
    return r


def native_replay(exe, prop, case):
    rc, out, _ = sh([exe, "replay", prop, case], 60, env=env())
    if rc == 1:
        return re.search(r"^FAIL (.*)$", out, re.M).group(1)
    return None


def tail(s, n):
    return "\n".join(s.splitlines()[-n:])


# ------------------------------------------------------------------ main

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)

    # --- the real code, for replays -------------------------------------
    exes = []
    for rayon in P.get("rayon", [False]):
        exe, out = build_native(rayon)
        if exe is None:
            log(tail(out, 30))
            log("ERROR: /repo does not build")
            sys.exit(2)
        exes.append(exe)

    # --- obligations ------------------------------------------------------
    obligations = []  # dicts: name, backend, status, checks, time, detail
    cmds = []
    jobs = []
    hs = [h for h in P.get("kani", []) if tier == "thorough" or not h.get("thorough")]
    groups = {}
    for h in hs:
        groups.setdefault(h["group"], []).append(h)
    lock = threading.Lock()

    def do_group(g, items):
        to = max(h.get("timeout", 240) for h in items) * (3 if tier == "thorough" else 1)
        res, cmd = run_kani(g, [h["name"] for h in items], min(to, 780 if tier == "quick" else 3600))
        with lock:
            cmds.append(cmd)
            for h in items:
                r = res[h["name"]]
                obligations.append(dict(name=h["name"], backend="kani/cbmc", group=g, what=h["what"], status=r["status"],
                                        checks=r["checks"], time=r["time"], failed=r["failed"], out=r["out"],
                                        covers=r["covers"], layout=h.get("layout"), bound=h.get("bound")))

    def do_verus(v):
        for r in verus_run.run(v, REPO, BUILD, VERIF, sh, env()):
            with lock:
                cmds.append(r.pop("cmd"))
                obligations.append(r)

    for g, items in groups.items():
        jobs.append(threading.Thread(target=do_group, args=(g, items)))
    for v in P.get("verus", []):
        jobs.append(threading.Thread(target=do_verus, args=(v,)))
    for j in jobs:
        j.start()
    for j in jobs:
        j.join()
    obligations.sort(key=lambda o: o["name"])
    for extra in P.get("static", []):
        obligations.append(extra(REPO))

    for o in obligations:
        log("%-10s %-9s %-45s %5d checks %7.1fs %s" % (o["status"], o["backend"], o["name"], o["checks"], o["time"],
                                                     "; ".join(o["failed"])[:200]))
    refuted = [o for o in obligations if o["status"] == "failed"]
    undecided = [o for o in obligations if o["status"] not in ("verified", "failed")]

    # --- the real code: replay counterexamples, look for failing inputs ---
    failing = None  # (message, case, how)
    for o in refuted:
        if failing or not o.get("layout") or o["backend"] != "kani/cbmc":
            continue
        vals, out = playback(o["group"], o["name"], 300)
        for v in vals:
            try:
                case = o["layout"](v)
            except Exception:
                continue
            for exe in exes:
                msg = native_replay(exe, prop, case)
                if msg and not failing:
                    failing = (msg, case, "counterexample of %s, replayed on the real code" % o["name"])
    searches = []
    if not failing and P.get("search") != 0:
        secs = P.get("search", 6)
        if refuted or undecided:
            secs = max(secs, 40)
        if tier == "thorough":
            secs = max(secs, 240)
        for k, exe in enumerate(exes):
            r = native_search(exe, prop, secs / len(exes), seed)
            searches.append(r)
            if r.get("error"):
                log("search error:", r["error"])
            if r["fail"]:
                failing = (r["fail"][0], r["fail"][1], "seeded search on the real code (seed %d)" % seed)
                break
    for extra in P.get("native", []):
        if not failing:
            r = extra(REPO, BUILD, VERIF, sh, env(), tier, seed)
            searches.append(r)
            if r.get("fail"):
                failing = (r["fail"][0], r["fail"][1], r.get("how", "run of the real program"))

    status = 0
    replay = os.path.join(VERIF, "replays", "%s.txt" % prop)
    if os.path.exists(replay):
        os.remove(replay)
    if failing or refuted:
        status = 1
        with open(replay, "w") as f:
            f.write("property: %s  %s\n" % (prop, P["title"]))
            for o in refuted:
                f.write("failed obligation: %s [%s] %s\n  %s\n" % (o["name"], o["backend"], o["what"], "\n  ".join(o["failed"])))
            if failing:
                f.write("failing input (%s):\n  %s\n  observed: %s\n" % (failing[2], failing[1], failing[0]))
                f.write("replay: (cd %s/native && cargo run --offline -q -- replay %s '%s')\n" % (VERIF, prop, failing[1]))
            else:
                f.write("no failing input was found for this obligation\n")
            for o in refuted:
                f.write("\n---- verifier output, %s ----\n%s\n" % (o["name"], tail(o["out"], 200)))
        if failing:
            log("failing input: %s\n  %s" % (failing[0], failing[1][:600]))
        log("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if failing else " no-failing-input-found"))

    # --- evidence ---------------------------------------------------------
    total = sum(max(o["checks"], 1) for o in obligations)
    done = sum(max(o["checks"], 1) - (len(o["failed"]) or 1 if o["status"] == "failed" else 0)
               for o in obligations if o["status"] in ("verified", "failed"))
    proved = [o for o in obligations if not o.get("bound")]
    bounded = [dict(name=o["name"], bound=o["bound"], status=o["status"]) for o in obligations if o.get("bound")]
    cov = dict(
        obligations=total,
        discharged=done,
        checker_cmd=" && ".join(sorted(set(cmds))) or "none",
        trusted_base=P["trusted"],
        functions_under_contract=P["functions"],
        harnesses=[dict(name=o["name"], backend=o["backend"], what=o["what"], status=o["status"], checks=o["checks"],
                        solver_s=round(o["time"], 2), covers=o.get("covers"), bounded=o.get("bound") or False) for o in obligations],
        solver_s=round(sum(o["time"] for o in obligations), 1),
        proved_harnesses=sum(1 for o in proved if o["status"] == "verified"),
        bounded_harnesses=bounded,
        undecided=[dict(name=o["name"], status=o["status"], out=tail(o["out"], 12)) for o in undecided],
        bounded_search_of_real_code=[dict(evaluations=s["cases"], nontrivial=s["nontrivial"], seconds=round(s["secs"], 1),
                                          sample=s["sample"][:700]) for s in searches],
        note="the bounded search is never counted as discharged; it replays failures and stands in for undecided obligations",
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=P["level"], coverage=cov, wall_s=round(time.time() - t0, 1),
              verdict="violation" if status else ("held" if not undecided else "held; undecided obligations replaced by the bounded stand-in"))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if undecided and not status:
        log("NOTE: undecided: %s (bounded stand-in: %d cases on the real code, no failure)" % (
            ", ".join(o["name"] for o in undecided), sum(s["cases"] for s in searches)))
    log("%s %s in %.1fs" % (prop, "VIOLATED" if status else "held", time.time() - t0))
    sys.exit(status)


if __name__ == "__main__":
    main()
