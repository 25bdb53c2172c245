//! One executable oracle per property, over the public API of texpresso.
use crate::cases::*;
use crate::spec::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use texpresso::{Format, Params};

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        format!("{} panicked: {}", what, m)
    })
}

fn encode(fmt: Format, px: &[[u8; 4]; 16], mask: u32, p: Params, fill: u8) -> Result<Vec<u8>, String> {
    let bs = match fmt {
        Format::Bc1 | Format::Bc4 => 8,
        _ => 16,
    };
    let mut out = vec![fill; bs];
    let px = *px;
    guard("compress_block_masked", || fmt.compress_block_masked(px, mask, p, &mut out))?;
    Ok(out)
}
fn enc(e: &Enc) -> Result<Vec<u8>, String> {
    encode(e.fmt, &e.px, e.mask, e.params(), e.fill)
}
fn decode(fmt: Format, b: &[u8]) -> Result<[[u8; 4]; 16], String> {
    guard("decompress_block", || fmt.decompress_block(b))
}
fn bsz(fmt: Format) -> usize {
    match fmt {
        Format::Bc1 | Format::Bc4 => 8,
        _ => 16,
    }
}

/// reference decoder, from the format definition
pub fn ref_decode(fmt: Format, b: &[u8]) -> [[i32; 4]; 16] {
    let mut o = [[0i32, 0, 0, 255]; 16];
    for i in 0..16 {
        match fmt {
            Format::Bc1 => o[i] = cpal(b, true, cidx(b, i)),
            Format::Bc2 => {
                o[i] = cpal(&b[8..], false, cidx(&b[8..], i));
                o[i][3] = 17 * anib(b, i) as i32;
            }
            Format::Bc3 => {
                o[i] = cpal(&b[8..], false, cidx(&b[8..], i));
                o[i][3] = gpal(b, gidx(b, i));
            }
            Format::Bc4 => {
                let v = gpal(b, gidx(b, i));
                o[i] = [v, v, v, 255];
            }
            Format::Bc5 => {
                o[i] = [gpal(b, gidx(b, i)), gpal(&b[8..], gidx(&b[8..], i)), 0, 255];
            }
        }
    }
    o
}

fn vis(e: &Enc, i: usize) -> bool {
    e.mask >> i & 1 == 1
}

/// channels that a format stores as a gradient: (source channel, byte offset of the block)
fn gradients(fmt: Format) -> &'static [(usize, usize)] {
    match fmt {
        Format::Bc3 => &[(3, 0)],
        Format::Bc4 => &[(0, 0)],
        Format::Bc5 => &[(0, 0), (1, 8)],
        _ => &[],
    }
}

fn q565(v: u8, levels: i32) -> i32 {
    // nearest level; ties cannot occur
    let n = (2 * v as i32 * levels + 255) / 510;
    if levels == 31 {
        n * 8 + n / 4
    } else {
        n * 4 + n / 16
    }
}

struct Solid {
    e: [[i32; 256]; 2],
    h: [[i32; 256]; 2],
    t: [[i32; 256]; 2],
}
fn solid() -> &'static Solid {
    static S: std::sync::OnceLock<Solid> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut s = Solid { e: [[i32::MAX; 256]; 2], h: [[i32::MAX; 256]; 2], t: [[i32::MAX; 256]; 2] };
        for (n, lv) in [(0usize, 32i32), (1, 64)] {
            let ex = |x: i32| if lv == 32 { x * 8 + x / 4 } else { x * 4 + x / 16 };
            for a in 0..lv {
                for b in 0..lv {
                    for v in 0..256i32 {
                        let u = v as usize;
                        s.e[n][u] = s.e[n][u].min((ex(a) - v).abs());
                        s.h[n][u] = s.h[n][u].min(((ex(a) + ex(b)) / 2 - v).abs());
                        s.t[n][u] = s.t[n][u].min(((2 * ex(a) + ex(b)) / 3 - v).abs());
                    }
                }
            }
        }
        s
    })
}

fn image_pixels(i: &Img) -> Vec<u8> {
    let mut r = Rng(i.seed);
    let mut v = vec![0u8; i.w * i.h * 4];
    // regions of few colours, so that blocks exercise every fitting path
    let pal: Vec<[u8; 4]> = (0..7).map(|_| [r.u8(), r.u8(), r.u8(), if r.one_in(2) { 255 } else { r.u8() }]).collect();
    let noisy = r.one_in(2);
    for p in v.chunks_mut(4) {
        let c = if noisy { [r.u8(), r.u8(), r.u8(), r.u8()] } else { pal[r.below(7) as usize] };
        p.copy_from_slice(&c);
    }
    v
}

fn ref_compress(i: &Img, src: &[u8]) -> Result<Vec<u8>, String> {
    let bs = bsz(i.fmt);
    let (bw, bh) = ((i.w + 3) / 4, (i.h + 3) / 4);
    let mut out = Vec::with_capacity(bw * bh * bs);
    for by in 0..bh {
        for bx in 0..bw {
            let mut px = [[0u8; 4]; 16];
            let mut mask = 0;
            for k in 0..16 {
                let (x, y) = (4 * bx + k % 4, 4 * by + k / 4);
                if x < i.w && y < i.h {
                    let o = 4 * (y * i.w + x);
                    px[k].copy_from_slice(&src[o..o + 4]);
                    mask |= 1 << k;
                }
            }
            out.extend(encode(i.fmt, &px, mask, i.p.params(), 0)?);
        }
    }
    Ok(out)
}

fn img_compress(i: &Img) -> R {
    let src = image_pixels(i);
    let want = ref_compress(i, &src)?;
    let mut out = vec![i.p.fill; want.len() + i.extra];
    guard("compress", || i.fmt.compress(&src, i.w, i.h, i.p.params(), &mut out))?;
    if let Some(k) = (0..want.len()).find(|k| want[*k] != out[*k]) {
        let b = k / bsz(i.fmt);
        return Err(format!(
            "compressed image differs from the block-by-block encoding at byte {} (block {},{})",
            k,
            b % ((i.w + 3) / 4),
            b / ((i.w + 3) / 4)
        ));
    }
    Ok(())
}

fn img_decompress(i: &Img) -> R {
    let bs = bsz(i.fmt);
    let (bw, bh) = ((i.w + 3) / 4, (i.h + 3) / 4);
    let mut r = Rng(i.seed ^ 77);
    // the input may be longer than needed
    let data: Vec<u8> = (0..bw * bh * bs + i.extra % 33).map(|_| r.u8()).collect();
    let n = i.w * i.h * 4;
    let mut out = vec![i.p.fill; n + i.extra];
    guard("decompress", || i.fmt.decompress(&data, i.w, i.h, &mut out))?;
    for by in 0..bh {
        for bx in 0..bw {
            let o = (by * bw + bx) * bs;
            let d = decode(i.fmt, &data[o..o + bs])?;
            for k in 0..16 {
                let (x, y) = (4 * bx + k % 4, 4 * by + k / 4);
                if x < i.w && y < i.h {
                    let o = 4 * (y * i.w + x);
                    ensure!(out[o..o + 4] == d[k], "pixel ({},{}) is not pixel {} of block ({},{})", x, y, k, bx, by);
                }
            }
        }
    }
    Ok(())
}

pub fn check(prop: &str, c: &Case) -> R {
    match (prop, c) {
        ("C01", Case::Dec { fmt, block }) | ("C02", Case::Dec { fmt, block }) | ("C03", Case::Dec { fmt, block }) => {
            let b = &block[..bsz(*fmt)];
            let d = decode(*fmt, b)?;
            let w = ref_decode(*fmt, b);
            for i in 0..16 {
                for k in 0..4 {
                    ensure!(d[i][k] as i32 == w[i][k], "pixel {} channel {}: decoded {} instead of {}", i, k, d[i][k], w[i][k]);
                }
            }
            Ok(())
        }
        ("C04", Case::Img(i)) => img_decompress(i),
        ("C05", Case::Img(i)) => img_compress(i),
        ("C17", Case::Img(i)) => {
            img_decompress(i)?;
            img_compress(i)
        }
        ("C06", Case::Sz { fmt, w, h }) => {
            let want = ((*w as u128 + 3) / 4) * ((*h as u128 + 3) / 4) * bsz(*fmt) as u128;
            if want > usize::MAX as u128 {
                return Ok(());
            }
            let got = guard("compressed_size", || fmt.compressed_size(*w, *h))?;
            ensure!(got as u128 == want, "compressed_size({},{}) = {} instead of {}", w, h, got, want);
            ensure!(fmt.block_size() == bsz(*fmt), "block_size = {}", fmt.block_size());
            Ok(())
        }
        ("C06", Case::Img(i)) => {
            let src = image_pixels(i);
            let size = ((i.w + 3) / 4) * ((i.h + 3) / 4) * bsz(i.fmt);
            ensure!(i.fmt.compressed_size(i.w, i.h) == size, "compressed_size({},{}) != {}", i.w, i.h, size);
            // an undersized buffer is refused and left alone
            let short = match i.seed % 4 {
                0 => size - 1,
                1 => size - bsz(i.fmt),
                2 => size / 2,
                _ => 0,
            };
            let mut out = vec![i.p.fill; short];
            let r = guard("compress", || i.fmt.compress(&src, i.w, i.h, i.p.params(), &mut out));
            ensure!(r.is_err(), "an output of {} bytes was accepted where {} are needed", short, size);
            ensure!(out.iter().all(|b| *b == i.p.fill), "an undersized buffer was written to");
            // exactly the compressed image is written, twice the same bytes whatever was there
            let mut a = vec![0u8; size + i.extra];
            let mut b = vec![0xFFu8; size + i.extra];
            guard("compress", || i.fmt.compress(&src, i.w, i.h, i.p.params(), &mut a))?;
            guard("compress", || i.fmt.compress(&src, i.w, i.h, i.p.params(), &mut b))?;
            ensure!(a[..size] == b[..size], "part of the compressed image was not written");
            ensure!(a[size..].iter().all(|x| *x == 0) && b[size..].iter().all(|x| *x == 0xFF), "bytes after the compressed image were written");
            let n = 4 * i.w * i.h;
            let mut a2 = vec![0u8; n + i.extra];
            let mut b2 = vec![0xFFu8; n + i.extra];
            guard("decompress", || i.fmt.decompress(&a, i.w, i.h, &mut a2))?;
            guard("decompress", || i.fmt.decompress(&a[..size], i.w, i.h, &mut b2))?;
            ensure!(a2[..n] == b2[..n], "part of the decompressed image was not written");
            ensure!(a2[n..].iter().all(|x| *x == 0) && b2[n..].iter().all(|x| *x == 0xFF), "bytes after the decompressed image were written");
            // a truncated input is refused
            let bs = bsz(i.fmt);
            for t in [size - 1, size - bs, (i.seed as usize / 7 % (size / bs)) * bs, 0] {
                let mut o = vec![0u8; n];
                let r = guard("decompress", || i.fmt.decompress(&a[..t], i.w, i.h, &mut o));
                ensure!(r.is_err(), "a truncated input ({} of {} bytes) was accepted", t, size);
            }
            Ok(())
        }
        ("C07", Case::Enc(e)) => {
            let a = enc(e)?;
            let mut f = e.clone();
            for i in 0..16 {
                if !vis(e, i) {
                    f.px[i] = e.alt[i];
                }
            }
            let b = enc(&f)?;
            ensure!(a == b, "masked pixels changed the block: {:02x?} vs {:02x?}", a, b);
            f.px = e.px;
            f.mask ^= 0xABCD0000;
            let b = enc(&f)?;
            ensure!(a == b, "mask bits beyond the 16 pixels changed the block");
            Ok(())
        }
        ("C08", Case::Enc(e)) => {
            let b = enc(e)?;
            let d = decode(e.fmt, &b)?;
            for i in 0..16 {
                if vis(e, i) {
                    let want = if e.px[i][3] < 128 { 0 } else { 255 };
                    ensure!(d[i][3] == want, "pixel {} alpha {} decodes to alpha {}", i, e.px[i][3], d[i][3]);
                }
            }
            Ok(())
        }
        ("C09", Case::Enc(e)) => {
            let b = enc(e)?;
            let d = decode(e.fmt, &b)?;
            for i in 0..16 {
                if vis(e, i) {
                    let v = e.px[i][3] as i32;
                    let got = d[i][3] as i32;
                    ensure!(got % 17 == 0, "pixel {}: alpha {} is not a 4-bit level", i, got);
                    for k in 0..16 {
                        ensure!((got - v).abs() <= (17 * k - v).abs(), "pixel {}: alpha {} stored as {}, {} is nearer", i, v, got, 17 * k);
                    }
                } else {
                    ensure!(d[i][3] == 0, "masked pixel {} has alpha {}", i, d[i][3]);
                }
            }
            Ok(())
        }
        ("C10", Case::Enc(e)) => {
            let b = enc(e)?;
            let d = decode(e.fmt, &b)?;
            for (ch, off) in gradients(e.fmt) {
                for i in 0..16 {
                    if vis(e, i) {
                        let v = e.px[i][*ch] as i32;
                        let got = d[i][*ch] as i32;
                        for k in 0..8 {
                            let p = gpal(&b[*off..], k);
                            ensure!((got - v).abs() <= (p - v).abs(), "pixel {} channel {}: {} stored as {} although the block's palette has {}", i, ch, v, got, p);
                        }
                    }
                }
            }
            Ok(())
        }
        ("C11", Case::Enc(e)) => {
            let b = enc(e)?;
            let d = decode(e.fmt, &b)?;
            for (ch, _) in gradients(e.fmt) {
                let vals: Vec<(i32, i32)> = (0..16).filter(|i| vis(e, *i)).map(|i| (e.px[i][*ch] as i32, d[i][*ch] as i32)).collect();
                if vals.is_empty() {
                    continue;
                }
                for (v, g) in &vals {
                    ensure!((*v != 0 && *v != 255) || v == g, "value {} decodes to {}", v, g);
                }
                let sse: i32 = vals.iter().map(|(v, g)| (v - g) * (v - g)).sum();
                let best = |pal: &[i32]| -> i32 {
                    vals.iter().map(|(v, _)| pal.iter().map(|p| (p - v) * (p - v)).min().unwrap()).sum()
                };
                let lo = vals.iter().map(|x| x.0).min().unwrap();
                let hi = vals.iter().map(|x| x.0).max().unwrap();
                let ramp: Vec<i32> = (0..8).map(|k| ((7 - k) * lo + k * hi) / 7).collect();
                ensure!(sse <= best(&ramp), "squared error {} although the 8-step ramp {}..{} gives {}", sse, lo, hi, best(&ramp));
                let mid: Vec<i32> = vals.iter().map(|x| x.0).filter(|v| *v != 0 && *v != 255).collect();
                let mut pal = vec![0, 255];
                if let (Some(lo), Some(hi)) = (mid.iter().min(), mid.iter().max()) {
                    pal.extend((0..6).map(|k| ((5 - k) * lo + k * hi) / 5));
                }
                ensure!(sse <= best(&pal), "squared error {} although 0, 255 and a 6-step ramp give {}", sse, best(&pal));
                ensure!(hi - lo > 7 || sse == 0, "values spanning {} levels are not exact", hi - lo + 1);
            }
            Ok(())
        }
        ("C12", Case::Enc(e)) => {
            let bc1 = e.fmt == Format::Bc1;
            let used = |i: usize| vis(e, i) && !(bc1 && e.px[i][3] < 128);
            let first = match (0..16).find(|i| used(*i)) {
                Some(i) => i,
                None => return Ok(()),
            };
            let c = e.px[first];
            if (0..16).any(|i| used(i) && e.px[i][..3] != c[..3]) {
                return Ok(());
            }
            let transparent = bc1 && (0..16).any(|i| vis(e, i) && e.px[i][3] < 128);
            let b = enc(e)?;
            let d = decode(e.fmt, &b)?;
            let g = d[first];
            let mut sse = 0;
            for i in 0..16 {
                if used(i) {
                    ensure!(d[i][..3] == g[..3], "a solid colour decodes to {:?} at pixel {} and {:?} at pixel {}", g, first, d[i], i);
                }
            }
            for k in 0..3 {
                sse += (g[k] as i32 - c[k] as i32).pow(2);
            }
            let s = solid();
            let sum = |t: &[[i32; 256]; 2]| -> i32 {
                let q = |n: usize, v: u8| t[n][v as usize] * t[n][v as usize];
                q(0, c[0]) + q(1, c[1]) + q(0, c[2])
            };
            let mut opt = sum(&s.e);
            if bc1 {
                opt = opt.min(sum(&s.h));
            }
            if !transparent {
                opt = opt.min(sum(&s.t));
            }
            ensure!(sse <= opt, "solid colour {:?} decodes to {:?}: squared error {} where {} is possible", &c[..3], &g[..3], sse, opt);
            Ok(())
        }
        ("C13", Case::Enc(e)) => {
            if e.alg % 3 != 0 {
                return Ok(());
            }
            let bc1 = e.fmt == Format::Bc1;
            let used: Vec<usize> = (0..16).filter(|i| vis(e, *i) && !(bc1 && e.px[*i][3] < 128)).collect();
            if used.is_empty() || used.iter().all(|i| e.px[*i][..3] == e.px[used[0]][..3]) {
                return Ok(());
            }
            let b = enc(e)?;
            let d = decode(e.fmt, &b)?;
            for k in 0..3 {
                let lv = if k == 1 { 63 } else { 31 };
                let lo = used.iter().map(|i| q565(e.px[*i][k], lv)).min().unwrap();
                let hi = used.iter().map(|i| q565(e.px[*i][k], lv)).max().unwrap();
                for i in &used {
                    let g = d[*i][k] as i32;
                    ensure!(lo <= g && g <= hi, "pixel {} channel {}: decoded {} outside the block's range {}..{}", i, k, g, lo, hi);
                }
            }
            Ok(())
        }
        ("C14", Case::Enc(e)) => {
            // any weights at all, and whatever the buffer held before
            let mut f = e.clone();
            if e.alt[0][0] % 4 == 0 {
                for k in 0..3 {
                    f.weights[k] = f32::from_bits(u32::from_le_bytes(e.alt[k]));
                }
            }
            let bs = bsz(e.fmt);
            f.fill = 0;
            let a = enc(&f)?;
            f.fill = 0xFF;
            let b = enc(&f)?;
            ensure!(a == b, "part of the block is not written");
            // a larger buffer: only the block is written
            let mut out = vec![0x5Au8; bs];
            guard("compress_block_masked", || f.fmt.compress_block_masked(f.px, f.mask, f.params(), &mut out))?;
            ensure!(out == a, "the block depends on what the buffer held");
            decode(e.fmt, &a)?;
            let mut raw = [0u8; 16];
            for i in 0..16 {
                raw[i] = e.px[i][i % 4];
            }
            decode(e.fmt, &raw[..bs])?;
            Ok(())
        }
        ("C15", Case::Enc(e)) => {
            let one = |ch: usize, px: &[[u8; 4]; 16]| {
                let mut q = e.alt;
                for i in 0..16 {
                    q[i][0] = px[i][ch];
                }
                q
            };
            let bc4 = |q: &[[u8; 4]; 16]| encode(Format::Bc4, q, e.mask, Params::default(), 0);
            let b4 = encode(Format::Bc4, &e.px, e.mask, e.params(), e.fill)?;
            ensure!(b4 == bc4(&one(0, &e.px))?, "BC4 depends on more than the red channel");
            let b5 = encode(Format::Bc5, &e.px, e.mask, e.params(), e.fill)?;
            ensure!(b5[..8] == b4[..], "the red half of BC5 is not the BC4 block");
            ensure!(b5[8..] == bc4(&one(1, &e.px))?[..], "the green half of BC5 is not the BC4 block of green");
            let b3 = encode(Format::Bc3, &e.px, e.mask, e.params(), e.fill)?;
            ensure!(b3[..8] == bc4(&one(3, &e.px))?[..], "the alpha half of BC3 is not the gradient block of alpha");
            let b2 = encode(Format::Bc2, &e.px, e.mask, e.params(), e.fill)?;
            ensure!(b2[8..] == b3[8..], "BC2 and BC3 disagree about colour");
            let mut q = e.alt;
            for i in 0..16 {
                q[i][3] = e.px[i][3];
            }
            ensure!(b2[..8] == encode(Format::Bc2, &q, e.mask, Params::default(), 0)?[..8], "the alpha half of BC2 depends on more than alpha");
            if !e.wa {
                let mut q = e.px;
                for i in 0..16 {
                    q[i][3] = e.alt[i][3];
                }
                ensure!(encode(Format::Bc3, &q, e.mask, e.params(), 0)?[8..] == b3[8..], "the colour half depends on alpha");
                ensure!(encode(Format::Bc2, &q, e.mask, e.params(), 0)?[8..] == b3[8..], "the colour half depends on alpha");
            }
            Ok(())
        }
        ("C16", Case::Enc(e)) => {
            let bc1 = e.fmt == Format::Bc1;
            let b = enc(e)?;
            let d = decode(e.fmt, &b)?;
            for i in 0..16 {
                for j in 0..i {
                    if vis(e, i) && vis(e, j) {
                        if e.px[i] == e.px[j] {
                            ensure!(d[i] == d[j], "equal pixels {} and {} decode to {:?} and {:?}", j, i, d[j], d[i]);
                        }
                        let opaque = !bc1 || (e.px[i][3] >= 128 && e.px[j][3] >= 128);
                        if opaque && e.px[i][..3] == e.px[j][..3] {
                            ensure!(d[i][..3] == d[j][..3], "equal colours {} and {} decode to {:?} and {:?}", j, i, d[j], d[i]);
                        }
                    }
                }
            }
            Ok(())
        }
        ("C21", Case::Enc(e)) => {
            let bc1 = e.fmt == Format::Bc1;
            let used: Vec<usize> = (0..16).filter(|i| vis(e, *i) && !(bc1 && e.px[*i][3] < 128)).collect();
            let grid = |p: &[u8; 4]| p[0] & 7 == p[0] >> 5 && p[1] & 3 == p[1] >> 6 && p[2] & 7 == p[2] >> 5;
            if e.alg % 3 != 0 || used.is_empty() || e.weights.iter().any(|w| !(0.0625 <= *w && *w <= 16.0)) {
                return Ok(());
            }
            let a = e.px[used[0]];
            let Some(b) = used.iter().map(|i| e.px[*i]).find(|p| *p != a) else { return Ok(()) };
            let apart = (a[1] >> 2) == (b[1] >> 2) || (a[1] >> 2).abs_diff(b[1] >> 2) >= 2;
            if !grid(&a) || !grid(&b) || !apart || a[..3] == b[..3] || used.iter().any(|i| e.px[*i][3] != 255 || (e.px[*i] != a && e.px[*i] != b)) {
                return Ok(());
            }
            let d = decode(e.fmt, &enc(e)?)?;
            for i in used {
                ensure!(d[i][..3] == e.px[i][..3], "pixel {} of a block of two colours: {:?} decodes to {:?}", i, &e.px[i][..3], &d[i][..3]);
            }
            Ok(())
        }
        ("C23", Case::Enc(e)) => {
            let bc1 = e.fmt == Format::Bc1;
            let used: Vec<usize> = (0..16).filter(|i| vis(e, *i) && !(bc1 && e.px[*i][3] < 128)).collect();
            if e.alg % 3 != 0 || e.weights.iter().any(|w| !(0.0625 <= *w && *w <= 16.0)) || used.iter().all(|i| e.px[*i][..3] == e.px[used[0]][..3]) {
                return Ok(());
            }
            let b = enc(e)?;
            let d = decode(e.fmt, &b)?;
            // the palette: the same ends with one index after the other
            let mut q = b.clone();
            let h = q.len() - 4;
            q[h..].copy_from_slice(&[0xe4; 4]);
            let palette = ref_decode(e.fmt, &q);
            let w = e.weights.map(f64::from);
            let len = |d: [f64; 3]| (0..3).map(|k| (w[k] * d[k]).powi(2)).sum::<f64>().sqrt();
            let dist = |p: &[u8; 4], c: &dyn Fn(usize) -> f64| len([0, 1, 2].map(|k| p[k] as f64 - c(k)));
            for i in used {
                let got = dist(&e.px[i], &|k| d[i][k] as f64);
                for c in palette[..4].iter().filter(|c| !bc1 || c[3] == 255) {
                    let other = dist(&e.px[i], &|k| c[k] as f64);
                    let most = other + 3.0 * len([1.0; 3]);
                    ensure!(got <= most, "pixel {} {:?} decodes to {:?}, at distance {:.2}; palette entry {:?} is at distance {:.2}", i, &e.px[i][..3], &d[i][..3], got, &c[..3], other);
                }
            }
            Ok(())
        }
        ("C19", Case::Enc(e)) => {
            let mut f = e.clone();
            for i in 0..16 {
                if vis(e, i) {
                    f.px[i][3] = 255;
                }
            }
            f.wa = false;
            let a = enc(&f)?;
            f.wa = true;
            let b = enc(&f)?;
            ensure!(a == b, "weighing by alpha changed an opaque block: {:02x?} vs {:02x?}", a, b);
            Ok(())
        }
        _ => Ok(()),
    }
}

/// Greedy simplification of a failing case, so that the replay is readable.
pub fn shrink(prop: &str, c: Case) -> Case {
    let mut best = c;
    let bad = |c: &Case| check(prop, c).is_err();
    if !bad(&best) {
        return best; // depends on something outside the case; keep as found
    }
    for _ in 0..3 {
        match best.clone() {
            Case::Enc(e) => {
                let mut cur = e;
                for i in 0..16 {
                    let mut t = cur.clone();
                    t.px[i] = t.px[0];
                    if bad(&Case::Enc(t.clone())) {
                        cur = t;
                    }
                    let mut t = cur.clone();
                    t.mask &= !(1 << i);
                    if t.mask & 0xffff != 0 && bad(&Case::Enc(t.clone())) {
                        cur = t;
                    }
                    for k in 0..4 {
                        let mut t = cur.clone();
                        t.px[i][k] = 0;
                        if bad(&Case::Enc(t.clone())) {
                            cur = t;
                        }
                    }
                    let mut t = cur.clone();
                    t.alt[i] = [0; 4];
                    if bad(&Case::Enc(t.clone())) {
                        cur = t;
                    }
                }
                best = Case::Enc(cur);
            }
            Case::Img(i) => {
                let mut cur = i;
                for (dw, dh) in [(4, 0), (0, 4), (1, 0), (0, 1)] {
                    loop {
                        let mut t = cur.clone();
                        if t.w <= dw || t.h <= dh {
                            break;
                        }
                        t.w -= dw;
                        t.h -= dh;
                        if bad(&Case::Img(t.clone())) {
                            cur = t;
                        } else {
                            break;
                        }
                    }
                }
                best = Case::Img(cur);
            }
            Case::Dec { fmt, block } => {
                let mut cur = block;
                for k in 0..16 {
                    let mut t = cur;
                    t[k] = 0;
                    if bad(&Case::Dec { fmt, block: t }) {
                        cur = t;
                    }
                }
                best = Case::Dec { fmt, block: cur };
            }
            x => best = x,
        }
    }
    best
}
