// Group `alpha`: contracts of the alpha / gradient encoders (real code, this module).
// fit_codes is represented by its contract, which Verus proves (verus/fit_codes.vt).
use super::*;
#[allow(dead_code)]
mod spec {
    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/spec.rs"));
}
use spec::*;

fn pixel() -> usize {
    let i: usize = kani::any();
    kani::assume(i < 16);
    i
}
fn entry() -> usize {
    let i: usize = kani::any();
    kani::assume(i < 8);
    i
}
fn vis(mask: u32, i: usize) -> bool {
    mask >> i & 1 == 1
}
fn dist(a: u8, b: u8) -> i32 {
    (a as i32 - b as i32).abs()
}

// ---------------------------------------------------------------- compress_bc2
// post: nibble of a visible pixel is the nearest multiple of 17, of a masked one 0
#[kani::proof]
#[kani::unwind(18)]
fn bc2_nearest() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let mut out: [u8; 8] = kani::any();
    compress_bc2(&rgba, mask, &mut out);
    let i = pixel();
    let n = anib(&out, i) as i32;
    if vis(mask, i) {
        let d = 17 * n - rgba[i][3] as i32;
        assert!(-8 <= d && d <= 8, "C09 nearest 4-bit level");
    } else {
        assert!(n == 0, "C09 masked pixel is 0");
    }
    kani::cover!(true, "reached");
}

// two runs that agree on visible alpha give the same block, whatever it held before
#[kani::proof]
#[kani::unwind(18)]
fn bc2_frame() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mut alt: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let mut i = 0;
    while i < 16 {
        if vis(mask, i) {
            alt[i][3] = rgba[i][3];
        }
        i += 1;
    }
    let (mut a, mut b): ([u8; 8], [u8; 8]) = (kani::any(), kani::any());
    compress_bc2(&rgba, mask, &mut a);
    compress_bc2(&alt, mask & 0xffff, &mut b);
    let k = entry();
    assert!(a[k] == b[k], "BC2 alpha depends on visible alpha only");
    kani::cover!(true, "reached");
}

// ---------------------------------------------------------------- fit_codes
// The contract: indices in range and 0 for masked pixels; the index of a visible pixel
// (of the symbolic pixel PX, which stands for all) selects a nearest code; the result is
// at most 16 * 255^2. Recorded: the codes offered and the answers given.
const MAXN: usize = 4;
static mut N: usize = 0;
static mut CODES: [[u8; 8]; MAXN] = [[0; 8]; MAXN];
static mut IDX: [[u8; 16]; MAXN] = [[0; 16]; MAXN];
static mut ERR: [u32; MAXN] = [0; MAXN];
static mut PX: usize = 0;

#[allow(static_mut_refs)]
fn fit_contract(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, codes: [u8; 8], indices: &mut [u8; 16]) -> u32 {
    let idx: [u8; 16] = kani::any();
    let err: u32 = kani::any();
    kani::assume(err <= 16 * 255 * 255);
    let mut i = 0;
    while i < 16 {
        kani::assume(idx[i] < 8);
        kani::assume(vis(mask, i) || idx[i] == 0);
        i += 1;
    }
    unsafe {
        if vis(mask, PX) {
            let v = rgba[PX][channel];
            let d = dist(codes[idx[PX] as usize], v);
            let mut j = 0;
            while j < 8 {
                kani::assume(d <= dist(codes[j], v));
                j += 1;
            }
        }
        assert!(N < MAXN, "fit_codes call log large enough");
        CODES[N] = codes;
        IDX[N] = idx;
        ERR[N] = err;
        N += 1;
    }
    *indices = idx;
    err
}
/// the same without the nearest clause (where it is not needed)
#[allow(static_mut_refs)]
fn fit_havoc(_rgba: &[[u8; 4]; 16], _channel: usize, mask: u32, codes: [u8; 8], indices: &mut [u8; 16]) -> u32 {
    let idx: [u8; 16] = kani::any();
    let err: u32 = kani::any();
    kani::assume(err <= 16 * 255 * 255);
    let mut i = 0;
    while i < 16 {
        kani::assume(idx[i] < 8);
        kani::assume(vis(mask, i) || idx[i] == 0);
        i += 1;
    }
    unsafe {
        assert!(N < MAXN, "fit_codes call log large enough");
        CODES[N] = codes;
        IDX[N] = idx;
        ERR[N] = err;
        N += 1;
    }
    *indices = idx;
    err
}
/// a call with the codes of an earlier call returns the same answers (lemma fit_frame)
#[allow(static_mut_refs)]
fn fit_memo(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, codes: [u8; 8], indices: &mut [u8; 16]) -> u32 {
    let e = fit_havoc(rgba, channel, mask, codes, indices);
    unsafe {
        let mut k = 0;
        while k + 1 < N {
            if CODES[k] == codes {
                *indices = IDX[k];
                IDX[N - 1] = IDX[k];
                ERR[N - 1] = ERR[k];
                return ERR[k];
            }
            k += 1;
        }
    }
    e
}

fn least(c: usize) -> bool {
    unsafe {
        let mut k = 0;
        while k < N {
            if ERR[k] < ERR[c] {
                return false;
            }
            k += 1;
        }
    }
    true
}
fn offers(c: usize, v: i32, d: i32) -> bool {
    // some code of call c is within d of v
    let mut j = 0;
    while j < 8 {
        if unsafe { (CODES[c][j] as i32 - v).abs() <= d } {
            return true;
        }
        j += 1;
    }
    false
}

// ---------------------------------------------------------------- compress_bc3
// post: one of the fits made (call c, of least error) is what the block stores: every
// visible pixel decodes to the code its index selected, and every entry of the stored
// palette is one of that call's codes. (Two independent pixel/entry pairs: if each call
// failed for some pair, the assertion would fail.)
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(fit_codes, fit_havoc)]
#[kani::solver(kissat)]
fn bc3_chosen() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let channel: usize = kani::any();
    kani::assume(channel < 4);
    let mut out: [u8; 8] = kani::any();
    compress_bc3(&rgba, channel, mask, &mut out);
    let n = unsafe { N };
    let mut all = false;
    let mut c = 0;
    while c < n {
        let i = pixel();
        let k = entry();
        let ok = least(c)
            && (!vis(mask, i) || gpal(&out, gidx(&out, i)) == unsafe { CODES[c][IDX[c][i] as usize] } as i32)
            && offers(c, gpal(&out, k as u8), 0);
        all = all || ok;
        c += 1;
    }
    assert!(all, "the block stores a fit of least error and its own codebook");
    kani::cover!(true, "reached");
}

// post: visible 0 and 255 decode exactly
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(fit_codes, fit_contract)]
#[kani::solver(kissat)]
fn bc3_exact() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let channel: usize = kani::any();
    kani::assume(channel < 4);
    let i = pixel();
    unsafe { PX = i };
    kani::assume(vis(mask, i));
    let v = rgba[i][channel];
    kani::assume(v == 0 || v == 255);
    let mut out: [u8; 8] = kani::any();
    compress_bc3(&rgba, channel, mask, &mut out);
    // a fit whose codebook holds v for this pixel is exact; any other is not of least error
    // only if some fit is better, so compare decoded value directly
    assert!(gpal(&out, gidx(&out, i)) == v as i32, "C11 0 and 255 decode exactly");
    kani::cover!(true, "reached");
}

// end to end (thorough): no entry of the stored palette is nearer than the decoded one
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(fit_codes, fit_contract)]
#[kani::solver(kissat)]
fn bc3_nearest() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let channel: usize = kani::any();
    kani::assume(channel < 4);
    let i = pixel();
    unsafe { PX = i };
    kani::assume(vis(mask, i));
    let mut out: [u8; 8] = kani::any();
    compress_bc3(&rgba, channel, mask, &mut out);
    let v = rgba[i][channel] as i32;
    let k = entry() as u8;
    assert!((gpal(&out, gidx(&out, i)) - v).abs() <= (gpal(&out, k) - v).abs(), "C10 nearest entry of the stored palette");
    kani::cover!(true, "reached");
}

fn range(rgba: &[[u8; 4]; 16], channel: usize, mask: u32) -> (i32, i32, i32, i32) {
    // (min, max, smallest non-zero, largest non-255) of the visible values
    let (mut lo, mut hi, mut lo5, mut hi5) = (256, -1, 256, -1);
    let mut i = 0;
    while i < 16 {
        if vis(mask, i) {
            let v = rgba[i][channel] as i32;
            if v < lo { lo = v }
            if v > hi { hi = v }
            if v != 0 && v < lo5 { lo5 = v }
            if v != 255 && v > hi5 { hi5 = v }
        }
        i += 1;
    }
    (lo, hi, lo5, hi5)
}
fn ramp(lo: i32, hi: i32, n: i32, k: i32) -> i32 {
    ((n - k) * lo + k * hi) / n
}

// post: some fit offers, for every visible value, a code at least as near as every entry of
// the 8-entry ramp between the extremes (so its error is at most the ramp's: esum_mono)
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(fit_codes, fit_havoc)]
#[kani::solver(kissat)]
fn bc3_ramp7() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let channel: usize = kani::any();
    kani::assume(channel < 4);
    let mut out: [u8; 8] = kani::any();
    compress_bc3(&rgba, channel, mask, &mut out);
    let (lo, hi, _, _) = range(&rgba, channel, mask);
    let n = unsafe { N };
    let mut all = false;
    let mut c = 0;
    while c < n {
        let i = pixel();
        let k = entry() as i32;
        let v = rgba[i][channel] as i32;
        all = all || !vis(mask, i) || offers(c, v, (ramp(lo, hi, 7, k) - v).abs());
        c += 1;
    }
    assert!(all, "C11 some fit is at least as good as the full ramp");
    kani::cover!(true, "reached");
}

#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(fit_codes, fit_havoc)]
#[kani::solver(kissat)]
fn bc3_ramp5() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let channel: usize = kani::any();
    kani::assume(channel < 4);
    let mut out: [u8; 8] = kani::any();
    compress_bc3(&rgba, channel, mask, &mut out);
    let (_, _, lo, hi) = range(&rgba, channel, mask);
    let n = unsafe { N };
    let mut all = false;
    let mut c = 0;
    while c < n {
        let i = pixel();
        let k = entry() as i32;
        let v = rgba[i][channel] as i32;
        let e = if k == 6 { 0 } else if k == 7 { 255 } else { ramp(lo, hi, 5, k) };
        // the inner ramp exists when some visible value is neither 0 nor 255
        let there = k >= 6 || lo <= hi;
        all = all || !vis(mask, i) || !there || offers(c, v, (e - v).abs());
        c += 1;
    }
    assert!(all, "C11 some fit is at least as good as the inner ramp with 0 and 255");
    kani::cover!(true, "reached");
}

// post: if the visible values span at most 7 levels, some fit offers every one of them
// (its error is then 0, and so is the error of the fit stored)
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(fit_codes, fit_havoc)]
#[kani::solver(kissat)]
fn bc3_narrow() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let channel: usize = kani::any();
    kani::assume(channel < 4);
    let (lo, hi, _, _) = range(&rgba, channel, mask);
    kani::assume(hi - lo <= 7);
    let mut out: [u8; 8] = kani::any();
    compress_bc3(&rgba, channel, mask, &mut out);
    let n = unsafe { N };
    let mut all = false;
    let mut c = 0;
    while c < n {
        let i = pixel();
        all = all || !vis(mask, i) || offers(c, rgba[i][channel] as i32, 0);
        c += 1;
    }
    assert!(all, "C11 a narrow block has a lossless fit");
    kani::cover!(true, "reached");
}

// post (frame): the block is a function of the visible values of the channel and of the
// low 16 mask bits; it does not depend on the channel's position, on the other channels,
// on masked pixels or on what the buffer held before
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(fit_codes, fit_memo)]
#[kani::solver(kissat)]
fn bc3_frame() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mut alt: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let (c1, c2): (usize, usize) = (kani::any(), kani::any());
    kani::assume(c1 < 4 && c2 < 4);
    let mut i = 0;
    while i < 16 {
        if vis(mask, i) {
            alt[i][c2] = rgba[i][c1];
        }
        i += 1;
    }
    let (mut a, mut b): ([u8; 8], [u8; 8]) = (kani::any(), kani::any());
    compress_bc3(&rgba, c1, mask, &mut a);
    compress_bc3(&alt, c2, mask & 0xffff, &mut b);
    let k = entry();
    assert!(a[k] == b[k], "gradient block depends on the visible values of its channel only");
    kani::cover!(true, "reached");
}

// ---------------------------------------------------------------- equal pixels (C16), totality (C14)
/// equal visible values get equal indices, all masked pixels get one index (lemma equal_values)
static mut PY: usize = 0;
#[allow(static_mut_refs)]
fn fit_equal(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, codes: [u8; 8], indices: &mut [u8; 16]) -> u32 {
    let e = fit_havoc(rgba, channel, mask, codes, indices);
    unsafe {
        kani::assume(!vis(mask, PX) || !vis(mask, PY) || rgba[PX][channel] != rgba[PY][channel] || indices[PX] == indices[PY]);
    }
    e
}
// post: equal visible values decode alike; and compress_bc3 never panics (no assumption on its input)
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(fit_codes, fit_equal)]
#[kani::solver(kissat)]
fn bc3_equal() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let channel: usize = kani::any();
    kani::assume(channel < 4);
    let (i, j) = (pixel(), pixel());
    unsafe {
        PX = i;
        PY = j;
    }
    let mut out: [u8; 8] = kani::any();
    compress_bc3(&rgba, channel, mask, &mut out);
    if vis(mask, i) && vis(mask, j) && rgba[i][channel] == rgba[j][channel] {
        assert!(gpal(&out, gidx(&out, i)) == gpal(&out, gidx(&out, j)), "C16 equal values decode alike");
    }
}
#[kani::proof]
#[kani::unwind(18)]
fn bc2_equal() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let (i, j) = (pixel(), pixel());
    let mut out: [u8; 8] = kani::any();
    compress_bc2(&rgba, mask, &mut out);
    if vis(mask, i) && vis(mask, j) && rgba[i][3] == rgba[j][3] {
        assert!(anib(&out, i) == anib(&out, j), "C16 equal alphas decode alike");
    }
}
// the alpha decoders never panic
#[kani::proof]
#[kani::unwind(18)]
fn alpha_decode_total() {
    let mut rgba: [[u8; 4]; 16] = kani::any();
    let b: [u8; 8] = kani::any();
    let channel: usize = kani::any();
    kani::assume(channel < 4);
    if kani::any() {
        decompress_bc2(&mut rgba, &b);
    } else {
        decompress_bc3(&mut rgba, channel, &b);
    }
}
