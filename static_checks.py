"""Mechanical scans of /repo's source that the proofs rely on."""
import os, re


def strip(s):
    s = re.sub(r"//[^\n]*", "", s)
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    return re.sub(r'"(\\.|[^"\\])*"', '""', s)


def no_unsafe(repo):
    bad = []
    n = 0
    for root, _, files in os.walk(os.path.join(repo, "lib", "src")):
        for f in files:
            if f.endswith(".rs"):
                n += 1
                s = strip(open(os.path.join(root, f), errors="replace").read())
                if re.search(r"\bunsafe\b", s):
                    bad.append(os.path.relpath(os.path.join(root, f), repo))
    return dict(name="scan:no-unsafe", backend="scan", what="library contains no unsafe code (memory-safety checks are switched off in CBMC)",
                status="undecided" if bad else "verified", checks=n, time=0.0, failed=[], out="unsafe in " + ", ".join(bad), covers=None)


def deterministic(repo):
    """no state, clock, randomness or addresses: what a function returns depends on its arguments only"""
    pat = re.compile(r"\bstatic\s+mut\b|\b(Unsafe|Ref|Once|Lazy)?Cell\b|\bAtomic\w*|\bthread_local\b|\bMutex\b|\bRwLock\b|\bOnceLock\b|\bLazyLock\b|"
                     r"\bInstant\b|\bSystemTime\b|\brand\b|\benv::|\bas_ptr\b|\bas_mut_ptr\b|\bas\s+\*\s*(const|mut)\b|\baddr_of|"
                     r"\btransmute\b|\basm!|\bextern\b\s*\"|\bcurrent_thread_index\b|\bcurrent_num_threads\b|\bBox::leak\b|\bstd::")
    bad, n = [], 0
    for root, _, files in os.walk(os.path.join(repo, "lib", "src")):
        for f in files:
            if f.endswith(".rs"):
                n += 1
                s = strip(open(os.path.join(root, f), errors="replace").read())
                m = pat.search(s)
                if m:
                    bad.append("%s: %s" % (os.path.relpath(os.path.join(root, f), repo), m.group(0)))
    return dict(name="scan:deterministic", backend="scan", what="library has no mutable statics, interior mutability, clocks, randomness or address-dependent code",
                status="undecided" if bad else "verified", checks=n, time=0.0, failed=[], out="; ".join(bad), covers=None)


def one_code(repo):
    """the rayon feature selects nothing but the chunk iterators that W6 of vx reads in both variants"""
    ok = re.compile(r'#\[cfg\((?:not\(\s*)?feature\s*=\s*"rayon"\s*\)?\)\]\s*'
                    r'(?:use\s+rayon::prelude::\*\s*;|let\s+\w+\s*=\s*\w+\s*\.\s*(?:par_)?chunks_mut\()')
    bad, n = [], 0
    for root, _, files in os.walk(os.path.join(repo, "lib", "src")):
        for f in files:
            if f.endswith(".rs"):
                n += 1
                s = open(os.path.join(root, f), errors="replace").read()
                s = re.sub(r"//[^\n]*|/\*.*?\*/", "", s, flags=re.S)
                if "rayon" in ok.sub("", s):
                    bad.append(os.path.relpath(os.path.join(root, f), repo))
    return dict(name="scan:one-code", backend="scan", what="the rayon feature selects nothing but the iterator over chunks, so all other code is the same text in both builds",
                status="undecided" if bad else "verified", checks=n, time=0.0, failed=[], out="rayon in " + ", ".join(bad), covers=None)


def sqrt(repo):
    """libm::sqrtf, run on every float the weights can take"""
    import subprocess, time
    exe = os.path.join(os.path.dirname(os.path.abspath(__file__)), "build", "native", "debug", "vnative")
    t0 = time.time()
    try:
        p = subprocess.run([exe, "sqrt"], capture_output=True, text=True, timeout=300)
        ok, out = p.returncode == 0 and p.stdout.startswith("OK"), p.stdout
    except Exception as e:
        ok, out = False, str(e)
    return dict(name="scan:sqrt", backend="exhaustive run", what="libm::sqrtf does not exceed the power of two above its argument, and lies in [1, 4] on [1, 16], for each of the 0x47800001 floats from 0 to 65536",
                status="verified" if ok else "undecided", checks=1, time=time.time() - t0, failed=[], out=out, covers=None)
