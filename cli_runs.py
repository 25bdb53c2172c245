"""Runs of the real `texpresso` program on files in a scratch folder: the bounded companion of the
contracts of C18 and C20. It turns a refuted obligation into a failing run; it is never counted as proof."""
import os, random, re, shutil, struct, subprocess, tempfile, time, zlib

FMT = ["bc1", "bc2", "bc3", "bc4", "bc5"]
DXGI = {"bc1": 72, "bc2": 75, "bc3": 78, "bc4": 80, "bc5": 83}
FOURCC = {"bc1": b"DXT1", "bc2": b"DXT3", "bc3": b"DXT5"}
PROFILE = {"speed": 0, "balanced": 1, "quality": 2}
BLOCK = {"bc1": 8, "bc2": 16, "bc3": 16, "bc4": 8, "bc5": 16}


# ------------------------------------------------------------------ PNG
def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))


ADAM7 = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]


def png(w, h, ct, depth, samples, plte=None, trns=None, interlace=False):
    """samples[y][x] is a tuple of channel values"""
    def rows(xs, ys):
        out = b""
        for y in ys:
            bits = "".join(format(v, "0%db" % depth) for x in xs for v in samples[y][x])
            bits += "0" * (-len(bits) % 8)
            out += b"\0" + bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
        return out
    if interlace:
        raw = b""
        for x0, y0, dx, dy in ADAM7:
            xs, ys = range(x0, w, dx), range(y0, h, dy)
            if len(xs) and len(ys):
                raw += rows(xs, ys)
    else:
        raw = rows(range(w), range(h))
    o = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, ct, 0, 0, 1 if interlace else 0))
    if plte:
        o += chunk(b"PLTE", bytes(v for p in plte for v in p))
    if trns is not None:
        o += chunk(b"tRNS", trns)
    return o + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b"")


def read_png(data):
    """8-bit RGBA, not interlaced -> (w, h, bytes)"""
    assert data[:8] == b"\x89PNG\r\n\x1a\n", "not a PNG"
    i, z = 8, b""
    while i < len(data):
        n, t = struct.unpack(">I4s", data[i:i + 8])
        if t == b"IHDR":
            w, h, depth, ct, _, _, il = struct.unpack(">IIBBBBB", data[i + 8:i + 21])
        if t == b"IDAT":
            z += data[i + 8:i + 8 + n]
        i += 12 + n
    assert (depth, ct, il) == (8, 6, 0), "depth %d, colour type %d" % (depth, ct)
    raw, bpp, st = zlib.decompress(z), 4, 4 * w
    out, prev = bytearray(), bytearray(st)
    for y in range(h):
        f, line = raw[y * (st + 1)], bytearray(raw[y * (st + 1) + 1:(y + 1) * (st + 1)])
        for x in range(st):
            a = line[x - bpp] if x >= bpp else 0
            b, c = prev[x], prev[x - bpp] if x >= bpp else 0
            if f == 1: p = a
            elif f == 2: p = b
            elif f == 3: p = (a + b) // 2
            elif f == 4:
                q = a + b - c
                pa, pb, pc = abs(q - a), abs(q - b), abs(q - c)
                p = a if pa <= pb and pa <= pc else b if pb <= pc else c
            else: p = 0
            line[x] = (line[x] + p) & 255
        out += line
        prev = line
    return w, h, bytes(out)


# ------------------------------------------------------------------ JPEG, flat 8x8 blocks
def jpeg(w, h, planes):
    """planes: 1 or 3 lists of rows of block values; every 8x8 block is flat. Components are stored
    as they are (components named RGB, Adobe marker: no colour transform), so the decoder gives exactly these values."""
    def seg(m, d):
        return bytes([0xff, m]) + struct.pack(">H", len(d) + 2) + d
    n, ids = len(planes), b"RGB"
    o = b"\xff\xd8"
    if n == 3:
        o += seg(0xee, b"Adobe\0\x64\0\0\0\0\0")
    o += seg(0xdb, b"\0" + bytes([8] * 64))
    o += seg(0xc0, struct.pack(">BHHB", 8, h, w, n) + b"".join(bytes([ids[c], 0x11, 0]) for c in range(n)))
    # DC: categories 0..11 have 4-bit codes 0..11; AC: end of block is code 0
    o += seg(0xc4, b"\0" + bytes([0, 0, 0, 12] + [0] * 12) + bytes(range(12)))
    o += seg(0xc4, b"\x10" + bytes([1] + [0] * 15) + b"\0")
    o += seg(0xda, bytes([n]) + b"".join(bytes([ids[c], 0]) for c in range(n)) + b"\0\x3f\0")
    bits, pred = "", [0] * n
    for by in range((h + 7) // 8):
        for bx in range((w + 7) // 8):
            for c in range(n):
                v = planes[c][by][bx] - 128  # DC * 8 / 8
                d = v - pred[c]
                pred[c] = v
                cat = abs(d).bit_length()
                bits += format(cat, "04b")
                if cat:
                    bits += format(d if d > 0 else d + (1 << cat) - 1, "0%db" % cat)
                bits += "0"
    bits += "1" * (-len(bits) % 8)
    e = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)).replace(b"\xff", b"\xff\0")
    return o + e + b"\xff\xd9"


# ------------------------------------------------------------------ DDS
def dds(w, h, data, dxgi=None, fourcc=b"DX10"):
    pf = struct.pack("<II4sIIIII", 32, 4, fourcc, 0, 0, 0, 0, 0)
    o = b"DDS " + struct.pack("<IIIIIII", 124, 0x1007, h, w, 0, 0, 1) + b"\0" * 44 + pf + struct.pack("<IIIII", 0x1000, 0, 0, 0, 0)
    if dxgi is not None:
        o += struct.pack("<IIIII", dxgi, 3, 0, 1, 0)
    return o + data


class Run:
    def __init__(self, repo, build, sh, env):
        self.tgt = os.path.join(build, "cli")
        rc, out, _ = sh(["cargo", "build", "--manifest-path", os.path.join(repo, "cli", "Cargo.toml"), "--target-dir", self.tgt,
                         "--offline"], 600, env=env, cwd=repo)
        self.exe = os.path.join(self.tgt, "debug", "texpresso")
        self.error = None if rc == 0 and os.path.exists(self.exe) else out[-600:]
        self.d = tempfile.mkdtemp(prefix="texpresso-cli-")
        self.lib = subprocess.Popen([os.path.join(build, "native", "debug", "vnative"), "serve"], stdin=subprocess.PIPE,
                                    stdout=subprocess.PIPE, text=True)
        self.sh, self.env, self.n = sh, env, 0

    def ask(self, *a):
        self.lib.stdin.write(" ".join(str(x) for x in a) + "\n")
        self.lib.stdin.flush()
        return bytes.fromhex(self.lib.stdout.readline().strip())

    def enc(self, fmt, profile, w, h, rgba, by_alpha=0, weights=(1, 1, 1)):
        return self.ask("enc", FMT.index(fmt) + 1, PROFILE[profile], by_alpha, *weights, w, h, rgba.hex())

    def dec(self, fmt, w, h, data):
        return self.ask("dec", FMT.index(fmt) + 1, w, h, data.hex())

    def go(self, name, data, *args):
        """-> (exit status, output file)"""
        self.n += 1
        src, dst = os.path.join(self.d, name), os.path.join(self.d, "out")
        open(src, "wb").write(data)
        if os.path.exists(dst):
            os.remove(dst)
        rc, out, _ = self.sh([self.exe] + [args[0]] + ["-o", dst] + list(args[1:]) + [src], 60, env=self.env, cwd=self.d)
        return rc, (open(dst, "rb").read() if os.path.exists(dst) else b""), out

    def close(self):
        self.lib.stdin.close()
        self.lib.wait()
        shutil.rmtree(self.d)


def texture(rng, w, h):
    return bytes(rng.randrange(256) for _ in range(4 * w * h))


def two_colours(rng, w, h):
    """every block has two colours: many equally good encodings"""
    n = (w + 3) // 4
    ps = [[[rng.randrange(256) for _ in range(4)] for _ in range(2)] for _ in range(n * ((h + 3) // 4))]
    return bytes(v for y in range(h) for x in range(w) for v in ps[x // 4 + n * (y // 4)][rng.randrange(5) // 4])


def rgba_png(w, h, rgba):
    return png(w, h, 6, 8, [[tuple(rgba[4 * (y * w + x):4 * (y * w + x) + 4]) for x in range(w)] for y in range(h)])


def header(out):
    """what the property asks of a DDS file: (w, h, dxgi, data) or None"""
    if len(out) < 148 or out[:4] != b"DDS " or out[84:88] != b"DX10":
        return None
    h, w = struct.unpack("<II", out[12:20])
    return w, h, struct.unpack("<I", out[128:132])[0], out[148:]


def c18(repo, build, verif, sh, env, tier, seed):
    t0, rng = time.time(), random.Random(seed)
    r = dict(cases=0, nontrivial=0, sample="texpresso compress/decompress: every format with every profile; every label of the tables", fail=None, secs=0.0,
             how="run of the real program")
    R = Run(repo, build, sh, env)
    try:
        if R.error:
            r["sample"] = "the program does not build: " + R.error
            return r
        def bad(msg, case):
            r["fail"] = (msg, case)
        for _ in range(40 if tier == "thorough" else 8):
            for f in FMT:
                for p in PROFILE:
                    if r["fail"]:
                        break
                    w, h = rng.choice([(7, 6), (8, 8), (5, 12), (12, 5)])
                    # smooth enough that the three algorithms differ
                    img, opts, kw = texture(rng, w, h), ["-f", f, "-p", p], {}
                    if rng.random() < 0.3:
                        img = bytes(v if i % 4 < 3 else 255 for i, v in enumerate(img))
                    if rng.random() < 0.4:
                        opts, kw["by_alpha"] = opts + ["--weigh-colour-by-alpha"], 1
                    ws = rng.choice([(1, 1, 1), (0.25, 0.5, 2), (3, 1, 0.125)])
                    opts, kw["weights"] = opts + [x for v in ws for x in ("-w", str(v))], ws
                    rc, out, log = R.go("in.png", rgba_png(w, h, img), "compress", *opts)
                    case = "compress %s, %dx%d RGBA %s" % (" ".join(opts), w, h, img.hex())
                    hd = header(out)
                    if rc != 0 or hd is None:
                        bad("no DDS file written (status %d)" % rc, case)
                    elif hd[2] != DXGI[f]:
                        bad("label %d in the file, format %s has %d" % (hd[2], f, DXGI[f]), case)
                    elif hd[3] != R.enc(f, p, w, h, img, **kw):
                        # other deviations are C22's
                        for f2 in FMT:
                            for p2 in PROFILE:
                                if hd[3] == R.enc(f2, p2, w, h, img, **kw):
                                    bad("the data is the %s encoding with profile %s, not the %s encoding with profile %s" % (f2, p2, f, p), case)
            for f in FMT:
                for label in ("dxgi", "legacy"):
                    if r["fail"] or (label == "legacy" and f not in FOURCC):
                        continue
                    w, h = rng.choice([(7, 6), (8, 8), (5, 12), (1, 3)])
                    data = bytes(rng.randrange(256) for _ in range(((w + 3) // 4) * ((h + 3) // 4) * BLOCK[f]))
                    d = dds(w, h, data, DXGI[f]) if label == "dxgi" else dds(w, h, data, None, FOURCC[f])
                    rc, out, log = R.go("in.dds", d, "decompress")
                    case = "decompress a DDS file with the %s label of %s, %dx%d, data %s" % (label, f, w, h, data.hex())
                    try:
                        got = read_png(out)
                    except Exception as e:
                        bad("no PNG written (status %d, %s)" % (rc, e), case)
                        continue
                    if got != (w, h, R.dec(f, w, h, data)):
                        for f2 in FMT:
                            if f2 != f and len(data) >= ((w + 3) // 4) * ((h + 3) // 4) * BLOCK[f2] and got == (w, h, R.dec(f2, w, h, data)):
                                bad("the PNG is the %s decoding of the data, not the %s decoding" % (f2, f), case)
        r["cases"] = r["nontrivial"] = R.n
        return r
    finally:
        R.close()
        r["secs"] = time.time() - t0


PERCEPTUAL = (0.2126, 0.7152, 0.0722)


def conversions(R, rng, rounds):
    """C22: the run's options, then what it must leave behind; yields (message, case) for each failure"""
    def clean():
        for p in ("in", "cwd"):
            shutil.rmtree(os.path.join(R.d, p), ignore_errors=True)
            os.mkdir(os.path.join(R.d, p))

    def run(args, name, data, want):
        """-> (status, the file at `want` or None, names of the other files left)"""
        clean()
        R.n += 1
        src = os.path.join(R.d, "in", name)
        open(src, "wb").write(data)
        rc, out, _ = R.sh([R.exe] + args + [src], 60, env=R.env, cwd=os.path.join(R.d, "cwd"))
        p = os.path.join(R.d, "cwd", want)
        return rc, (open(p, "rb").read() if os.path.exists(p) else None), sorted(os.listdir(os.path.join(R.d, "cwd")))

    for k in range(rounds):
        for f in FMT:
            w, h = rng.choice([(7, 6), (8, 8), (5, 12), (12, 5), (1, 9), (33, 2), (64, 41), (3, 70)])
            if rng.random() < 0.7:
                if rng.random() < 0.5:
                    w, h = 64 + rng.randrange(64), 64
                img = bytes(v if i % 4 < 3 else max(v, 1) for i, v in enumerate((two_colours if w > 64 else texture)(rng, w, h)))
                name, data = rng.choice(["a.png", "a.b.png", "IMG.PNG", "x.Png"]), rgba_png(w, h, img)
            else:
                ps = [[[rng.randrange(256) for _ in range((w + 7) // 8)] for _ in range((h + 7) // 8)] for _ in range(3)]
                img = b"".join(bytes([ps[c][y // 8][x // 8] for c in range(3)] + [255]) for y in range(h) for x in range(w))
                name, data = rng.choice(["p.jpg", "p.q.jpeg", "P.JPG", "P.JpEg"]), jpeg(w, h, ps)
            args, profile, ws, ba = ["compress", "-f", f], "balanced", PERCEPTUAL, 0
            if rng.random() < 0.6:
                profile = rng.choice(sorted(PROFILE))
                args += ["-p", profile]
            if rng.random() < 0.4:
                args, ba = args + ["--weigh-colour-by-alpha"], 1
            if rng.random() < 0.5:
                ws = rng.choice([(1, 2, 0.5), (0.25, 0.5, 2), (3, 1, 0.125), (0, 0, 1), (1, 1, 1), (3, 7, 5), (0.3, 0.7, 0.2), (90, 0.1, 7)])
                args += [x for v in ws for x in ("-w", str(v))]
            want = name[:name.rindex(".")] + ".dds"
            if rng.random() < 0.5:
                want = rng.choice(["out.dds", "result", "z.bin"])
                args += ["-o", want]
            rc, out, names = run(args, name, data, want)
            case = "texpresso %s %s (%dx%d, pixels %s)" % (" ".join(args), name, w, h, img.hex())
            hd = header(out) if out is not None else None
            if rc != 0 or hd is None:
                yield "no DDS file at %s (status %d, files %s)" % (want, rc, names), case
            elif hd[:2] != (w, h):
                yield "size %dx%d in the DDS file" % hd[:2], case
            elif struct.unpack("<II", out[24:32])[0] > 1 or struct.unpack("<I", out[28:32])[0] > 1 or struct.unpack("<I", out[112:116])[0] != 0 \
                    or struct.unpack("<III", out[132:144]) != (3, 0, 1):
                yield "the DDS header does not describe a single 2D image: %s" % out[:148].hex(), case
            elif hd[3] != R.enc(f, profile, w, h, img, ba, ws):
                yield "the data is not the library's %s encoding, profile %s, weights %s, alpha weighting %d" % (f, profile, ws, ba), case

            # the other way
            w, h = rng.choice([(7, 6), (8, 8), (5, 12), (1, 3), (64, 41), (3, 70)])
            data = bytes(rng.randrange(256) for _ in range(((w + 3) // 4) * ((h + 3) // 4) * BLOCK[f]))
            old = f in FOURCC and rng.random() < 0.5
            name = rng.choice(["t.dds", "t.v2.dds", "T.DDS", "noext"])
            args, want = ["decompress"], (name[:name.rindex(".")] if "." in name else name) + ".png"
            if rng.random() < 0.5:
                want = rng.choice(["out.png", "result", "z.bin"])
                args += ["-o", want]
            rc, out, names = run(args, name, dds(w, h, data, None, FOURCC[f]) if old else dds(w, h, data, DXGI[f]), want)
            case = "texpresso %s %s (DDS with the %s label of %s, %dx%d, data %s)" % (" ".join(args), name, "legacy" if old else "DXGI", f, w, h, data.hex())
            try:
                got = read_png(out) if out is not None else None
            except Exception as e:
                yield "no 8-bit RGBA PNG at %s (%s)" % (want, e), case
                continue
            if rc != 0 or got is None:
                yield "no PNG file at %s (status %d, files %s)" % (want, rc, names), case
            elif got[:2] != (w, h):
                yield "size %dx%d in the PNG" % got[:2], case
            elif got[2] != R.dec(f, w, h, data):
                yield "the PNG does not hold the library's decompression", case
        # any other number of weights is refused
        n = rng.choice([1, 2, 4, 5])
        args = ["compress", "-f", rng.choice(FMT), "-o", "out.dds"] + ["-w", "1"] * n
        rc, out, names = run(args, "a.png", rgba_png(4, 4, texture(rng, 4, 4)), "out.dds")
        if rc == 0 or out is not None:
            yield "%d weights are accepted (status %d, files %s)" % (n, rc, names), "texpresso " + " ".join(args) + " a.png"


def c22(repo, build, verif, sh, env, tier, seed):
    t0, rng = time.time(), random.Random(seed)
    r = dict(cases=0, nontrivial=0, sample="texpresso compress/decompress: default and given output names, profiles, weights, alpha weighting, file names in any case", fail=None,
             secs=0.0, how="run of the real program")
    R = Run(repo, build, sh, env)
    try:
        if R.error:
            r["sample"] = "the program does not build: " + R.error
            return r
        r["fail"] = next(conversions(R, rng, 120 if tier == "thorough" else 25), None)
        r["cases"] = r["nontrivial"] = R.n
        return r
    finally:
        R.close()
        r["secs"] = time.time() - t0


def images(rng, count):
    """(name, file, w, h, expected RGBA, description)"""
    k = 0
    kinds = [(0, d, t) for d in (1, 2, 4, 8, 16) for t in (False, True)] + [(4, d, False) for d in (8, 16)] \
        + [(2, d, t) for d in (8, 16) for t in (False, True)] + [(6, d, False) for d in (8, 16)] \
        + [(3, d, t) for d in (1, 2, 4, 8) for t in (False, True)] + ["jpeg1", "jpeg3"]
    rng.shuffle(kinds)
    while k < count:
        for kind in kinds:
            k += 1
            if k > count:
                return
            w, h = rng.choice([(1, 1), (3, 5), (4, 4), (7, 2), (9, 6), (8, 8), (16, 3), (5, 17), (1, 11), (13, 1)])
            if isinstance(kind, str):
                n = int(kind[4])
                ps = [[[rng.randrange(256) for _ in range((w + 7) // 8)] for _ in range((h + 7) // 8)] for _ in range(n)]
                exp = b"".join(bytes([ps[c % n][y // 8][x // 8] for c in range(3)] + [255]) for y in range(h) for x in range(w))
                yield rng.choice(["in.jpg", "in.JPEG"]), jpeg(w, h, ps), w, h, exp, "JPEG, %d component(s), %dx%d" % (n, w, h)
                continue
            ct, depth, tr = kind
            n = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ct]
            top = (1 << depth) - 1
            plte = trns = None
            if ct == 3:
                plte = [tuple(rng.randrange(256) for _ in range(3)) for _ in range(top + 1 if depth < 8 else rng.randrange(1, 257))]
                top = len(plte) - 1
                if tr:
                    trns = bytes(rng.randrange(256) for _ in range(rng.randrange(1, len(plte) + 1)))
            # blocks of 4x4 stay close together so that the encoder shows small differences
            base = tuple(rng.randrange(top + 1) for _ in range(n))
            sm = [[tuple(rng.randrange(top + 1) if rng.random() < 0.7 else base[c] for c in range(n)) for _ in range(w)] for _ in range(h)]
            key = None
            if tr and ct in (0, 2):
                key = sm[rng.randrange(h)][rng.randrange(w)]
                trns = b"".join(struct.pack(">H", v) for v in key)
            il = rng.random() < 0.3
            exp = bytearray()
            for y in range(h):
                for x in range(w):
                    s = sm[y][x]
                    up = [v * 255 // top if depth < 8 and ct != 3 else v >> 8 if depth == 16 else v for v in s]
                    a = 0 if key == s else 255
                    if ct == 0: px = [up[0]] * 3 + [a]
                    elif ct == 4: px = [up[0]] * 3 + [up[1]]
                    elif ct == 2: px = up + [a]
                    elif ct == 6: px = up
                    else: px = list(plte[s[0]]) + [trns[s[0]] if trns is not None and s[0] < len(trns) else 255]
                    exp += bytes(px)
            yield "in.png", png(w, h, ct, depth, sm, plte, trns, il), w, h, bytes(exp), \
                "PNG, colour type %d, depth %d%s%s, %dx%d" % (ct, depth, ", tRNS" if trns is not None else "", ", interlaced" if il else "", w, h)


def c20(repo, build, verif, sh, env, tier, seed):
    t0, rng = time.time(), random.Random(seed)
    r = dict(cases=0, nontrivial=0, sample="texpresso compress of generated PNG (all colour types and depths, tRNS, interlaced) and JPEG files", fail=None, secs=0.0,
             how="run of the real program")
    R = Run(repo, build, sh, env)
    try:
        if R.error:
            r["sample"] = "the program does not build: " + R.error
            return r
        for name, data, w, h, exp, what in images(rng, 400 if tier == "thorough" else 200):
            for f in ("bc3", "bc5"):
                rc, out, log = R.go(name, data, "compress", "-f", f, "-p", "speed", *(["-w", "1"] * 3))
                hd = header(out)
                case = "compress -f %s -p speed %s, file %s, pixels %s" % (f, what, data.hex(), exp.hex())
                if rc != 0 or hd is None:
                    r["fail"] = ("no DDS file written (status %d): %s" % (rc, log[-200:].strip()), case)
                elif hd[:2] != (w, h) or hd[3] != R.enc(f, "speed", w, h, exp):
                    r["fail"] = ("the pixels compressed are not the pixels of the image", case)
                if r["fail"]:
                    break
            if r["fail"]:
                break
        r["cases"] = r["nontrivial"] = R.n
        return r
    finally:
        R.close()
        r["secs"] = time.time() - t0
