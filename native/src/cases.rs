//! Structured inputs, their text form, and seeded generators.
use texpresso::{Algorithm, Format, Params};

pub const FMTS: [Format; 5] = [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5];

pub fn fmt_no(f: Format) -> usize {
    FMTS.iter().position(|x| *x == f).unwrap() + 1
}
pub fn alg(n: u8) -> Algorithm {
    match n % 3 {
        0 => Algorithm::RangeFit,
        1 => Algorithm::ClusterFit,
        _ => Algorithm::IterativeClusterFit,
    }
}

#[derive(Clone, Debug)]
pub struct Enc {
    pub fmt: Format,
    pub alg: u8,
    pub weights: [f32; 3],
    pub wa: bool,
    pub mask: u32,
    pub px: [[u8; 4]; 16],
    /// a second set of values for whatever the property varies
    pub alt: [[u8; 4]; 16],
    pub fill: u8,
}

impl Enc {
    pub fn params(&self) -> Params {
        Params { algorithm: alg(self.alg), weights: self.weights, weigh_colour_by_alpha: self.wa }
    }
}

#[derive(Clone, Debug)]
pub struct Img {
    pub fmt: Format,
    pub w: usize,
    pub h: usize,
    pub extra: usize,
    pub seed: u64,
    pub p: Enc,
}

#[derive(Clone, Debug)]
pub enum Case {
    Dec { fmt: Format, block: [u8; 16] },
    Enc(Enc),
    Img(Img),
    Sz { fmt: Format, w: usize, h: usize },
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
fn pxs(v: &[u8]) -> Option<[[u8; 4]; 16]> {
    if v.len() != 64 {
        return None;
    }
    let mut o = [[0u8; 4]; 16];
    for i in 0..64 {
        o[i / 4][i % 4] = v[i];
    }
    Some(o)
}
fn flat(p: &[[u8; 4]; 16]) -> Vec<u8> {
    p.iter().flat_map(|x| x.iter().cloned()).collect()
}

impl Enc {
    fn show(&self) -> String {
        format!(
            "fmt={} alg={} weights={:08x},{:08x},{:08x} wa={} mask={:x} px={} alt={} fill={}",
            fmt_no(self.fmt),
            self.alg % 3,
            self.weights[0].to_bits(),
            self.weights[1].to_bits(),
            self.weights[2].to_bits(),
            self.wa as u8,
            self.mask,
            hex(&flat(&self.px)),
            hex(&flat(&self.alt)),
            self.fill
        )
    }
}

impl Case {
    pub fn show(&self) -> String {
        match self {
            Case::Dec { fmt, block } => format!("dec fmt={} block={}", fmt_no(*fmt), hex(block)),
            Case::Enc(e) => format!("enc {}", e.show()),
            Case::Img(i) => format!(
                "img w={} h={} extra={} seed={} {}",
                i.w, i.h, i.extra, i.seed, i.p.show()
            ),
            Case::Sz { fmt, w, h } => format!("sz fmt={} w={} h={}", fmt_no(*fmt), w, h),
        }
    }
    pub fn parse(s: &str) -> Option<Case> {
        let mut it = s.split_whitespace();
        let kind = it.next()?;
        let kv: std::collections::HashMap<&str, &str> = it.filter_map(|x| x.split_once('=')).collect();
        let f = |k: &str| kv.get(k).cloned();
        let fmt = FMTS[f("fmt")?.parse::<usize>().ok()?.checked_sub(1)?.min(4)];
        let enc = || -> Option<Enc> {
            let mut w = [0f32; 3];
            for (i, x) in f("weights")?.split(',').enumerate().take(3) {
                w[i] = f32::from_bits(u32::from_str_radix(x, 16).ok()?);
            }
            Some(Enc {
                fmt,
                alg: f("alg")?.parse().ok()?,
                weights: w,
                wa: f("wa")? == "1",
                mask: u32::from_str_radix(f("mask")?, 16).ok()?,
                px: pxs(&unhex(f("px")?)?)?,
                alt: pxs(&unhex(f("alt")?)?)?,
                fill: f("fill")?.parse().ok()?,
            })
        };
        Some(match kind {
            "dec" => {
                let mut block = [0u8; 16];
                let v = unhex(f("block")?)?;
                for (a, b) in block.iter_mut().zip(v) {
                    *a = b;
                }
                Case::Dec { fmt, block }
            }
            "enc" => Case::Enc(enc()?),
            "img" => Case::Img(Img {
                fmt,
                w: f("w")?.parse().ok()?,
                h: f("h")?.parse().ok()?,
                extra: f("extra")?.parse().ok()?,
                seed: f("seed")?.parse().ok()?,
                p: enc()?,
            }),
            "sz" => Case::Sz { fmt, w: f("w")?.parse().ok()?, h: f("h")?.parse().ok()? },
            _ => return None,
        })
    }
    pub fn nontrivial(&self) -> bool {
        match self {
            Case::Dec { block, .. } => block.iter().any(|b| *b != block[0]),
            Case::Enc(e) => e.mask & 0xffff != 0 && e.px.iter().any(|p| *p != e.px[0]),
            Case::Img(i) => i.w * i.h > 0,
            Case::Sz { w, h, .. } => *w > 0 && *h > 0,
        }
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn u8(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
}

pub struct Gen {
    pub r: Rng,
    /// integer literals found in the source of the code under test
    lits: Vec<i64>,
}

impl Gen {
    pub fn new(seed: u64, lits: Vec<i64>) -> Gen {
        Gen { r: Rng(seed.wrapping_mul(0xD1342543DE82EF95) ^ 0x5851F42D4C957F2D), lits }
    }

    /// a byte, biased to extremes and to literals of the source
    fn byte(&mut self) -> u8 {
        match self.r.below(12) {
            0 => 0,
            1 => 255,
            2 => 1,
            3 => 254,
            4 => [127, 128, 129, 126, 8, 7, 9, 136, 247, 248][self.r.below(10) as usize],
            5 | 6 => self.lit(255) as u8,
            _ => self.r.u8(),
        }
    }
    fn lit(&mut self, max: u64) -> u64 {
        let n = self.lits.len() as u64;
        if n == 0 {
            return self.r.below(max + 1);
        }
        let l = self.lits[self.r.below(n) as usize] + self.r.below(3) as i64 - 1;
        if l >= 0 && l as u64 <= max {
            l as u64
        } else {
            self.r.below(max + 1)
        }
    }
    fn mask(&mut self) -> u32 {
        let m = match self.r.below(8) {
            0 | 1 | 2 => 0xFFFF,
            3 => 1u32 << self.r.below(16),
            4 => 0xFFFF & !(1u32 << self.r.below(16)),
            5 => {
                // the shape of an image edge
                let w = 1 + self.r.below(4);
                let h = 1 + self.r.below(4);
                let mut m = 0;
                for y in 0..h {
                    for x in 0..w {
                        m |= 1 << (4 * y + x);
                    }
                }
                m
            }
            6 => (self.r.next() & 0xFFFF) as u32,
            _ => (self.r.next() & self.r.next() & 0xFFFF) as u32,
        };
        match self.r.below(40) {
            0 => 0,
            // bits above the 16 pixels carry no meaning
            1 | 2 => m | ((self.r.next() as u32) << 16),
            _ => m,
        }
    }
    fn colour(&mut self) -> [u8; 3] {
        match self.r.below(8) {
            0 => {
                let v = self.byte();
                [v, v, v]
            }
            1 => {
                // exactly representable in 5:6:5
                let (r, g, b) = (self.r.u8() & 31, self.r.u8() & 63, self.r.u8() & 31);
                [(r << 3) | (r >> 2), (g << 2) | (g >> 4), (b << 3) | (b >> 2)]
            }
            2 => [self.r.u8(), 0, 0],
            3 => [0, self.byte(), self.byte()],
            _ => [self.byte(), self.byte(), self.byte()],
        }
    }
    fn pixels(&mut self) -> [[u8; 4]; 16] {
        let mut p = [[0u8; 4]; 16];
        let style = self.r.below(9);
        let ncol = 1 + self.r.below(6) as usize;
        let pal: Vec<[u8; 3]> = (0..ncol).map(|_| self.colour()).collect();
        let base = [self.r.u8(), self.r.u8(), self.r.u8()];
        let span = 1 + self.r.below(20);
        let step = [self.r.below(17) as i32 - 8, self.r.below(17) as i32 - 8, self.r.below(17) as i32 - 8];
        for i in 0..16 {
            let c = match style {
                0 | 1 | 2 => pal[self.r.below(ncol as u64) as usize],
                3 => {
                    let mut c = base;
                    for x in c.iter_mut() {
                        *x = x.wrapping_add(self.r.below(span) as u8);
                    }
                    c
                }
                4 => {
                    let mut c = base;
                    for k in 0..3 {
                        c[k] = (base[k] as i32 + step[k] * i as i32).clamp(0, 255) as u8;
                    }
                    c
                }
                5 => {
                    let a = pal[0];
                    let b = pal[ncol - 1];
                    let t = self.r.below(4) as i32;
                    let mut c = a;
                    for k in 0..3 {
                        c[k] = ((a[k] as i32 * (3 - t) + b[k] as i32 * t) / 3) as u8;
                    }
                    c
                }
                6 => [self.r.u8(), self.r.u8(), self.r.u8()],
                7 => {
                    // narrow band plus extremes, per channel
                    let mut c = base;
                    for x in c.iter_mut() {
                        *x = match self.r.below(4) {
                            0 => 0,
                            1 => 255,
                            _ => x.wrapping_add(self.r.below(8) as u8),
                        };
                    }
                    c
                }
                _ => self.colour(),
            };
            p[i] = [c[0], c[1], c[2], 255];
        }
        let astyle = self.r.below(8);
        let abase = self.byte();
        let aspan = 1 + self.r.below(12);
        for i in 0..16 {
            p[i][3] = match astyle {
                0 | 1 => 255,
                2 => [0, 255][self.r.below(2) as usize],
                3 => [127, 128][self.r.below(2) as usize],
                4 => abase.wrapping_add(self.r.below(aspan) as u8),
                5 => [0, 255, abase, abase.wrapping_add(self.r.below(aspan) as u8)][self.r.below(4) as usize],
                6 => abase,
                _ => self.byte(),
            };
        }
        // change exactly one pixel now and then
        if self.r.one_in(4) {
            let i = self.r.below(16) as usize;
            let k = self.r.below(4) as usize;
            p[i][k] = self.byte();
        }
        p
    }
    fn weights(&mut self) -> [f32; 3] {
        match self.r.below(6) {
            0 | 1 => [1.0, 1.0, 1.0],
            2 | 3 => texpresso::COLOUR_WEIGHTS_PERCEPTUAL,
            4 => {
                let mut w = [0f32; 3];
                for x in w.iter_mut() {
                    *x = self.r.below(1001) as f32 / 1000.0;
                }
                w
            }
            _ => {
                let mut w = [0f32; 3];
                w[self.r.below(3) as usize] = 1.0;
                w
            }
        }
    }
    pub fn enc(&mut self, fmts: &[Format]) -> Enc {
        let fmt = fmts[self.r.below(fmts.len() as u64) as usize];
        let alg = match self.r.below(5) {
            0 | 1 => 0,
            2 | 3 => 1,
            _ => 2,
        };
        Enc {
            fmt,
            alg,
            weights: self.weights(),
            wa: self.r.one_in(3),
            mask: self.mask(),
            px: self.pixels(),
            alt: self.pixels(),
            fill: [0, 0xFF, 0xA5][self.r.below(3) as usize],
        }
    }
    fn dim(&mut self, big: bool) -> usize {
        match self.r.below(8) {
            0 => 1 + self.r.below(4) as usize,
            1 => 4 * (1 + self.r.below(6) as usize),
            2 => 4 * (1 + self.r.below(6) as usize) + 1,
            3 => 4 * (1 + self.r.below(6) as usize) - 1,
            4 if big => (1 + self.lit(700)) as usize,
            _ => 1 + self.r.below(24) as usize,
        }
    }
    pub fn img(&mut self, fmts: &[Format]) -> Img {
        let mut e = self.enc(fmts);
        e.alg = if self.r.one_in(3) { 1 } else { 0 };
        let bigw = self.r.one_in(20);
        let (mut w, mut h) = (self.dim(bigw), self.dim(!bigw && self.r.0 % 16 == 0));
        if w * h > 6000 {
            e.alg = 0;
        }
        if w * h > 60000 {
            if w > h {
                h = 1 + h % 8;
            } else {
                w = 1 + w % 8;
            }
        }
        let bs = e.fmt.block_size();
        let extra = match self.r.below(8) {
            0 => 1,
            1 => bs,
            2 => self.r.below(64) as usize,
            3 => w * 4 * 4,
            4 => ((w + 3) / 4) * bs,
            5 => ((w + 3) / 4) * bs * 2 + 3,
            _ => 0,
        };
        Img { fmt: e.fmt, w, h, extra, seed: self.r.next() & 0xffff_ffff, p: e }
    }
    fn dec(&mut self, fmts: &[Format]) -> Case {
        let fmt = fmts[self.r.below(fmts.len() as u64) as usize];
        let mut block = [0u8; 16];
        for b in block.iter_mut() {
            *b = self.r.u8();
        }
        match self.r.below(8) {
            0 => {
                // equal / nearly equal colour endpoints
                for o in [0, 8] {
                    block[o + 2] = block[o].wrapping_add(self.r.below(3) as u8).wrapping_sub(1);
                    block[o + 3] = block[o + 1];
                }
            }
            1 => {
                for o in [0, 8] {
                    block[o + 1] = block[o].wrapping_add(self.r.below(3) as u8).wrapping_sub(1);
                }
            }
            2 => {
                for o in [0, 1, 2, 3, 8, 9, 10, 11] {
                    block[o] = self.byte();
                }
            }
            3 => {
                for o in 0..16 {
                    if self.r.one_in(2) {
                        block[o] = self.byte();
                    }
                }
            }
            _ => {}
        }
        Case::Dec { fmt, block }
    }

    /// weights from 1/16 to 16
    fn fair(&mut self, e: &mut Enc) {
        let fair = |r: &mut Rng| match r.below(5) {
            0 => 0.0625f32,
            1 => 16.0,
            2 => 1.0,
            _ => 2f32.powf(r.below(8001) as f32 / 1000.0 - 4.0),
        };
        if self.r.one_in(2) {
            e.weights = [fair(&mut self.r), fair(&mut self.r), fair(&mut self.r)];
        }
        e.weights = e.weights.map(|w| if w >= 0.0625 && w <= 16.0 { w } else { 1.0 });
    }

    pub fn case(&mut self, prop: &str, n: u64) -> Case {
        use Format::*;
        match prop {
            "C01" => self.dec(&[Bc1]),
            "C02" => self.dec(&[Bc2, Bc3]),
            "C03" => self.dec(&[Bc4, Bc5]),
            "C04" | "C05" | "C06" | "C17" => {
                if prop == "C06" && n % 4 == 0 {
                    let k = self.r.below(30);
                    let w = (self.r.next() >> (34 + k)) as usize;
                    let k = self.r.below(30);
                    let h = (self.r.next() >> (34 + k)) as usize;
                    let fmt = FMTS[self.r.below(5) as usize];
                    return Case::Sz { fmt, w, h };
                }
                Case::Img(self.img(&FMTS))
            }
            "C08" => {
                let mut e = self.enc(&[Bc1]);
                if self.r.one_in(2) {
                    e.fmt = Bc1;
                }
                Case::Enc(e)
            }
            "C09" => Case::Enc(self.enc(&[Bc2])),
            "C10" | "C11" => Case::Enc(self.enc(&[Bc3, Bc4, Bc5])),
            "C12" => {
                let mut e = self.enc(&[Bc1, Bc1, Bc2, Bc3]);
                let c = self.colour();
                // a solid-colour block; BC1 may also have transparent pixels
                for p in e.px.iter_mut() {
                    p[0] = c[0];
                    p[1] = c[1];
                    p[2] = c[2];
                }
                if e.fmt == Bc1 && self.r.one_in(2) {
                    for (p, q) in e.px.iter_mut().zip(e.alt.iter()) {
                        if p[3] < 128 {
                            p[..3].copy_from_slice(&q[..3]);
                        }
                    }
                }
                // masked pixels are arbitrary
                for i in 0..16 {
                    if e.mask >> i & 1 == 0 {
                        e.px[i] = e.alt[i];
                    }
                }
                Case::Enc(e)
            }
            "C13" => {
                let mut e = self.enc(&[Bc1, Bc2, Bc3]);
                e.alg = 0;
                Case::Enc(e)
            }
            "C21" => {
                let mut e = self.enc(&[Bc1, Bc2, Bc3]);
                e.alg = 0;
                self.fair(&mut e);
                let level = |r: &mut Rng, n: u64| match r.below(6) {
                    0 => 0,
                    1 => n - 1,
                    _ => r.below(n),
                };
                let a = [level(&mut self.r, 32), level(&mut self.r, 64), level(&mut self.r, 32)];
                let mut b = a;
                let near = self.r.one_in(2);
                for (k, n) in [(0, 32u64), (1, 64), (2, 32)] {
                    if self.r.one_in(3) {
                        continue;
                    }
                    b[k] = if near { (a[k] + n - 2 + self.r.below(5)) % n } else { level(&mut self.r, n) };
                }
                if b[1] + 1 == a[1] || a[1] + 1 == b[1] {
                    b[1] = (a[1] + 2) % 64;
                }
                if a == b {
                    b[0] = (b[0] + 1) % 32;
                }
                let wide = |c: [u64; 3]| [(c[0] * 8 + c[0] / 4) as u8, (c[1] * 4 + c[1] / 16) as u8, (c[2] * 8 + c[2] / 4) as u8, 255];
                let (a, b) = (wide(a), wide(b));
                let most = self.r.below(17);
                for i in 0..16 {
                    if e.mask >> i & 1 != 0 && !(e.fmt == Bc1 && e.px[i][3] < 128) {
                        e.px[i] = if self.r.below(16) < most { a } else { b };
                    }
                }
                Case::Enc(e)
            }
            "C23" => {
                let mut e = self.enc(&[Bc1, Bc2, Bc3]);
                e.alg = 0;
                self.fair(&mut e);
                Case::Enc(e)
            }
            "C19" => Case::Enc(self.enc(&[Bc1, Bc2, Bc3])),
            "C16" => {
                let five = self.r.one_in(8);
                Case::Enc(self.enc(if five { &FMTS } else { &[Bc1, Bc2, Bc3] }))
            }
            _ => Case::Enc(self.enc(&FMTS)),
        }
    }
}
