"""Verus back end: fills the contract templates verus/*.vt with function bodies that
vx extracts from /repo's current source, runs Verus, and classifies the outcome.

Template directives (one per line, at the start of the line):
  //@extract ID FILE ITEM...     take ITEM (see vx) from FILE below /repo, or from dep:CRATE/FILE; up to //@end:
  //@sub REGEX ==> TEXT          rewrite of the extracted text (must match)
  //@sub? REGEX ==> TEXT         the same, may match nothing
  //@at MARKER                   following lines are ghost text put at /*@MARKER*/
                                 ($i(n), $e(n): index variable and bound of its loop n)
  //@end
  //@body ID                     the extracted body, ghost text inserted
  //@params ID / //@output ID    the extracted parameter list / return type (inline: $params(ID), $output(ID))
  //@include FILE                text of verus/FILE
Outcomes: verified / failed (a named obligation is refuted by the solver) /
undecided (extraction impossible, not in Verus's subset, resource limit).
"""
import glob, json, os, re, threading

_lock = threading.Lock()
VERDICT = re.compile(r"postcondition not satisfied|precondition not satisfied|precondition not met|invariant not satisfied|assertion failed|"
                     r"possible arithmetic (under|over)flow|possible (arithmetic )?(under|over)flow|possible bit shift|"
                     r"possible division by zero|decreases not satisfied|recommendation not met|"
                     r"unreachable|assertion not satisfied|split (assertion|postcondition|precondition) failure|"
                     r"may not satisfy|could not be proved|fails? to satisfy|loop invariant|constructed value may fail")


class Unsupported(Exception):
    pass


def known(verif, f):
    """functions of file f at the pinned commit: calls of others are inlined (vx W12)"""
    try:
        return json.load(open(os.path.join(verif, "vx", "known.json"))).get(f)
    except OSError:
        return None


def build_vx(verif, build, sh, env):
    exe = os.path.join(build, "vx", "debug", "vx")
    with _lock:
        rc, out, _ = sh(["cargo", "build", "-q", "--manifest-path", os.path.join(verif, "vx", "Cargo.toml"),
                         "--target-dir", os.path.join(build, "vx")], 300, env=env)
    if rc != 0:
        raise Unsupported("vx does not build: " + out[-800:])
    return exe


def dep_path(repo, f):
    """source of a dependency, in the version Cargo.lock names: CRATE/path"""
    crate, rest = f.split("/", 1)
    m = re.search(r'name = "%s"\nversion = "([^"]+)"' % re.escape(crate), open(os.path.join(repo, "Cargo.lock")).read())
    home = os.environ.get("CARGO_HOME") or os.path.join(os.path.expanduser("~"), ".cargo")
    g = glob.glob(os.path.join(home, "registry/src/*/%s-%s" % (crate, m.group(1) if m else "?"), rest))
    if not g:
        raise Unsupported("no source of %s" % f)
    return g[0]


def load(template):
    lines = []
    for l in open(template).read().split("\n"):
        m = re.match(r"//@include (\S+)", l)
        lines += open(os.path.join(os.path.dirname(template), m.group(1))).read().split("\n") if m else [l]
    return lines


def fill(template, repo, vx, sh, env):
    """-> (source text, list of extracted functions); a spec function whose name the code uses for a
    variable is renamed"""
    lines = load(template)
    ext, out, items = fill_lines(lines, template, repo, vx, sh, env)
    ghost = set(re.findall(r"\b(?:spec|proof) fn (\w+)", "\n".join(lines)))
    bound = set()
    for e in ext.values():
        bound |= set(re.findall(r"\blet (?:mut )?(\w+)\b", e["raw"])) | set(re.findall(r"(\w+) :", e["params"]))
        bound |= set(x for t in re.findall(r"\blet \(([\w ,]*)\)", e["raw"]) for x in re.findall(r"\w+", t))
    clash = sorted(ghost & bound)
    if clash:
        n = "|".join(clash)
        # functions only: methods are called with a dot and cannot clash
        r = re.compile(r"(?<![\w.])(?<!\bfn )(%s)(?=\s*\()|(?<=spec fn )(%s)(?=\s*\((?!&?\s*self))|(?<=proof fn )(%s)(?=\s*\((?!&?\s*self))" % (n, n, n))
        lines = [r.sub(lambda m: "vt_" + m.group(0), l) for l in lines]
        ext, out, items = fill_lines(lines, template, repo, vx, sh, env)
    return out, items


def fill_lines(lines, template, repo, vx, sh, env):
    ext, items, out = {}, [], []
    i = 0
    while i < len(lines):
        l = lines[i]
        l = re.sub(r"^\s+(//@)", r"\1", l)
        m = re.match(r"//@extract (\S+) (\S+) (.*)", l)
        if m:
            eid, f, item = m.group(1), m.group(2), m.group(3).split()
            path = dep_path(repo, f[4:]) if f.startswith("dep:") else os.path.join(repo, f)
            names = known(os.path.dirname(os.path.dirname(os.path.abspath(template))), f)
            rc, txt, _ = sh([vx, path] + item + (["--known", ",".join(names)] if names is not None else []), 60, env=env)
            if rc != 0:
                raise Unsupported("%s %s: %s" % (f, " ".join(item), txt.strip()[-300:]))
            params = re.search(r"^PARAMS (.*)$", txt, re.M).group(1)
            o = re.search(r"^OUTPUT (.*)$", txt, re.M)
            body = re.sub(r"^(PARAMS|OUTPUT) .*\n", "", txt, flags=re.M)
            ghost, marker, raw = {}, None, body
            i += 1
            while not lines[i].lstrip().startswith("//@end"):
                l = re.sub(r"^\s+(//@)", r"\1", lines[i])
                ms = re.match(r"//@sub(\??) (.*?) ==> ?(.*)$", l)
                ma = re.match(r"//@at (.*)$", l)
                if ms:
                    body, n = re.subn(ms.group(2), ms.group(3), body, flags=re.S)
                    if n == 0 and not ms.group(1):
                        raise Unsupported("%s: no match for /%s/" % (eid, ms.group(2)))
                elif ma:
                    marker = ma.group(1).strip()
                    ghost[marker] = ""
                elif marker is not None:
                    ghost[marker] += l + "\n"
                i += 1
            # $i(n), $e(n): index variable and bound of loop n
            def name(kind, what):
                def f(m):
                    x = re.search(r"/\*@%s %s (.*?)\*/" % (kind, m.group(1)), body)
                    if not x:
                        raise Unsupported("%s: loop %s has no %s" % (eid, m.group(1), what))
                    return x.group(1)
                return f
            for k, g in ghost.items():
                g = re.sub(r"\$i\((\d+)\)", name("VAR", "index"), g)
                g = re.sub(r"\$e\((\d+)\)", name("END", "bound"), g)
                tag = "/*@%s*/" % k
                if body.count(tag) != 1:
                    raise Unsupported("%s: %d places for %s" % (eid, body.count(tag), tag))
                body = body.replace(tag, "\n" + g)
            ext[eid] = dict(params=params.strip(), output=o.group(1) if o else "()", body=body, raw=raw)
            items.append("%s %s" % (f, " ".join(item)))
            i += 1
            continue
        m = re.match(r"//@body (\S+)", l)
        if m:
            out.append(ext[m.group(1)]["body"])
        else:
            l = re.sub(r"\$params\((\w+)\)", lambda m: ext[m.group(1)]["params"], l)
            l = re.sub(r"\$output\((\w+)\)", lambda m: ext[m.group(1)]["output"], l)
            out.append(l)
        i += 1
    return ext, "\n".join(out), items


def run(v, repo, build, verif, sh, env):
    """v: dict(unit, what[, timeout, rlimit])"""
    unit = v["unit"]
    d = os.path.join(build, "verus", unit)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, unit + ".rs")
    o = dict(name="verus:" + unit, backend="verus/z3", what=v["what"], status="undecided", checks=0, time=0.0, failed=[],
             out="", covers=None, bound=v.get("bound"))
    cmd = ["verus", src, "--crate-type", "lib", "--num-threads", "4", "--rlimit", str(v.get("rlimit", 60)),
           "--log-dir", os.path.join(d, "log"), "--log", "smt", "--time", "--multiple-errors", "3"]
    o["cmd"] = " ".join(cmd)
    try:
        vx = build_vx(verif, build, sh, env)
        text, items = fill(os.path.join(verif, "verus", unit + ".vt"), repo, vx, sh, env)
    except Unsupported as e:
        o["out"] = "extraction: %s" % e
        return [o]
    o["functions"] = items
    open(src, "w").write(text)
    if os.path.isdir(os.path.join(d, "log")):
        for f in os.listdir(os.path.join(d, "log")):
            p = os.path.join(d, "log", f)
            if os.path.isfile(p):
                os.remove(p)
    rc, out, dt = sh(cmd, v.get("timeout", 300), env=env, cwd=d)
    o["out"], o["time"] = out, dt
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    n = 0
    for root, _, files in os.walk(os.path.join(d, "log")):
        for f in files:
            if f.endswith(".smt2") or f.endswith(".smt_transcript"):
                n += len(set(re.findall(r"%%location_label%%\d+", open(os.path.join(root, f), errors="replace").read())))
    nfun = int(m.group(1)) if m else 0
    o["checks"] = max(n, nfun)
    o["functions_verified"] = nfun
    errs = re.findall(r"^error(\[\w+\])?: (.*)$", out, re.M)
    hard = [t for c, t in errs if c or (not VERDICT.search(t) and not t.startswith("aborting due"))]
    soft = [t for c, t in errs if not c and VERDICT.search(t)]
    if rc == 0 and m and int(m.group(2)) == 0 and nfun >= v.get("min_functions", 1):
        o["status"] = "verified"
    elif soft and not hard and m:
        o["status"] = "failed"
        # name the obligation: message, function line and source line
        for mm in re.finditer(r"^error: (.*)\n\s*--> \S*?:(\d+):\d+((?:\n[^\n]*){0,12})", out, re.M):
            if mm.group(1).startswith("aborting"):
                continue
            code = re.findall(r"^\s*\d+\s*\|\s?(.*)$", mm.group(3), re.M)
            o["failed"].append("%s: %s" % (mm.group(1), (code[0].strip() if code else "line " + mm.group(2))[:160]))
        if not o["failed"]:
            o["failed"] = soft
    return [o]
