"""C17: both builds of the real code on the same images, the rayon build with several numbers of threads;
the bounded companion of the contracts, never counted as proof."""
import os, random, subprocess, threading, time


def image(r, w, h):
    kind = r.randrange(6)
    if kind == 0:
        return bytes(r.randrange(256) for _ in range(4 * w * h))
    pal = [[r.randrange(256) for _ in range(4)] for _ in range(r.choice([1, 2, 3, 5, 12]))]
    if kind <= 2:
        for p in pal:
            p[3] = r.choice([0, 127, 128, 255, 255])
    o = bytearray()
    a, b = [[r.randrange(256) for _ in range(4)] for _ in range(2)]
    for y in range(h):
        for x in range(w):
            if kind <= 3:
                o += bytes(r.choice(pal))
            elif kind == 4:
                t = r.randrange(17)
                o += bytes((p * t + q * (16 - t)) // 16 for p, q in zip(a, b))
            else:
                o += bytes(min(255, p * (x + 1) // w + r.randrange(4)) for p in a[:3]) + b"\xff"
    return bytes(o)


def lines(seed, n):
    r = random.Random(seed)
    out = []
    for k in range(n):
        fmt = 1 + k % 5
        w, h = r.choice([(1, 1), (3, 5), (4, 4), (8, 12), (13, 9), (5, 61), (2, 130), (33, 7), (16, 16), (21, 30)])
        if k % 3 == 2:
            bs = 8 if fmt in (1, 4) else 16
            d = bytes(r.randrange(256) for _ in range((w + 3) // 4 * ((h + 3) // 4) * bs))
            out.append("dec %d %d %d %s" % (fmt, w, h, d.hex()))
        else:
            ws = r.choice([("0.2126", "0.7152", "0.0722"), ("1", "1", "1"), ("1", "0", "0.25"), ("0.5", "0.5", "0.001")])
            out.append("enc %d %d %d %s %d %d %s" % (fmt, r.randrange(3), r.randrange(2), " ".join(ws), w, h, image(r, w, h).hex()))
    return out


def serve(exe, text, env, secs):
    try:
        p = subprocess.run([exe, "serve"], input=text, capture_output=True, text=True, timeout=secs, env=env)
        return p.stdout.split("\n")[:-1], p.stderr[-300:]
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        return o.split("\n")[:-1], None  # slow, not wrong


def c17(repo, build, verif, sh, env, tier, seed):
    t0 = time.time()
    exe = {k: os.path.join(build, d, "debug", "vnative") for k, d in (("sequential", "native"), ("rayon", "native-rayon"))}
    ls = lines(seed, 240 if tier == "quick" else 6000)
    text = "\n".join(ls) + "\n"
    runs = [("sequential", None)] + [("rayon", n) for n in (1, 2, 3, 8)]
    res = {}

    def go(b, n):
        e = dict(env)
        if n:
            e["RAYON_NUM_THREADS"] = str(n)
        res[(b, n)] = serve(exe[b], text, e, 60 if tier == "quick" else 900)
    ts = [threading.Thread(target=go, args=r) for r in runs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    want, werr = res[("sequential", None)]
    cases, fail = 0, None
    for key in runs[1:]:
        got, err = res[key]
        for k in range(max(len(want), len(got))):
            if k >= len(want) and werr is None or k >= len(got) and err is None:
                break  # that run was cut off
            a = want[k] if k < len(want) else "panic: " + (werr or "")
            b = got[k] if k < len(got) else "panic: " + (err or "")
            if k >= len(want) and k >= len(got):
                break
            cases += 1
            if a != b:
                i = next((i for i in range(0, min(len(a), len(b)), 2) if a[i:i + 2] != b[i:i + 2]), 0)
                fail = fail or ("with %d threads byte %d differs: sequential %s.. rayon %s.." % (key[1], i // 2, a[i:i + 32], b[i:i + 32]), ls[k])
                break
    return dict(cases=cases, nontrivial=cases, secs=time.time() - t0, sample=ls[0], fail=fail, how="the same request to both builds (vnative serve)")
