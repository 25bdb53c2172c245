// Group `block`: contracts of the block writers (real code), by what the block decodes to.
use super::*;
#[allow(dead_code)]
mod spec {
    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/spec.rs"));
}

static mut A: u16 = 0;
static mut B: u16 = 0;
// pack_565 by its contract: some function of the colour (which one: pack_levels)
fn pack_any(colour: &Vec3) -> u16 {
    unsafe {
        if colour.x() == 0.0 {
            A
        } else {
            B
        }
    }
}
fn colour(c: u16, d: u16, index: u8, three: bool) -> [i32; 4] {
    let (p, q) = (spec::expand565(c as u32), spec::expand565(d as u32));
    let mut o = [0, 0, 0, 255];
    for k in 0..3 {
        o[k] = match (index, three) {
            (0, _) => p[k],
            (1, _) => q[k],
            (2, true) => (p[k] + q[k]) / 2,
            (2, false) => (2 * p[k] + q[k]) / 3,
            (_, true) => 0,
            (_, false) => (p[k] + 2 * q[k]) / 3,
        };
    }
    if three && index == 3 {
        o[3] = 0;
    }
    o
}
struct In {
    start: Vec3,
    end: Vec3,
    a: u16,
    b: u16,
    idx: [u8; 16],
    i: usize,
    block: [u8; 8],
}
fn input() -> In {
    let (a, b): (u16, u16) = (kani::any(), kani::any());
    unsafe {
        A = a;
        B = b;
    }
    let idx: [u8; 16] = kani::any();
    for k in 0..16 {
        kani::assume(idx[k] <= 3);
    }
    let i: usize = kani::any();
    kani::assume(i < 16);
    In { start: Vec3::new(0.0, 0.0, 0.0), end: Vec3::new(1.0, 0.0, 0.0), a, b, idx, i, block: kani::any() }
}
fn ends(block: &[u8; 8]) -> (u32, u32) {
    (block[0] as u32 + 256 * block[1] as u32, block[2] as u32 + 256 * block[3] as u32)
}
// three colours: the palette is start, end, their average and transparent black
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(pack_565, pack_any)]
fn three() {
    let mut x = input();
    let old = x.block;
    write3(&x.start, &x.end, &x.idx, &mut x.block);
    let (c0, c1) = ends(&x.block);
    assert!(c0 <= c1, "three-colour order");
    let want = colour(x.a, x.b, x.idx[x.i], true);
    assert!(spec::cpal(&x.block, true, spec::cidx(&x.block, x.i)) == want, "pixel keeps its palette entry");
    let mut other: [u8; 8] = kani::any();
    write3(&x.start, &x.end, &x.idx, &mut other);
    assert!(other == x.block, "every byte is written");
    kani::cover!(old != x.block && x.a > x.b && x.idx[x.i] < 2, "swapped");
}
// four colours, or one when both ends pack alike
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(pack_565, pack_any)]
fn four() {
    let mut x = input();
    write4(&x.start, &x.end, &x.idx, &mut x.block);
    let (c0, c1) = ends(&x.block);
    let bc1: bool = kani::any();
    let got = spec::cpal(&x.block, bc1, spec::cidx(&x.block, x.i));
    if x.a != x.b {
        assert!(c0 > c1, "four-colour order");
        assert!(got == colour(x.a, x.b, x.idx[x.i], false), "pixel keeps its palette entry");
    } else {
        assert!(c0 == c1 && got == colour(x.a, x.a, 0, false), "all pixels on the one colour");
    }
    let mut other: [u8; 8] = kani::any();
    write4(&x.start, &x.end, &x.idx, &mut other);
    assert!(other == x.block, "every byte is written");
    kani::cover!(x.a < x.b && x.idx[x.i] > 1, "swapped");
}
// colours on the grid pack to their levels
#[kani::proof]
fn pack_levels() {
    let (r, g, b): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
    kani::assume(r < 32 && g < 64 && b < 32);
    let v = Vec3::new(f32::from(r) / 31.0, f32::from(g) / 63.0, f32::from(b) / 31.0);
    assert!(pack_565(&v) == (r as u16) << 11 | (g as u16) << 5 | b as u16, "levels");
}
// and anything else packs to something
#[kani::proof]
fn pack_total() {
    let v = Vec3::new(f32::from_bits(kani::any()), f32::from_bits(kani::any()), f32::from_bits(kani::any()));
    let _ = pack_565(&v);
}
// decoding never panics
#[kani::proof]
#[kani::unwind(18)]
fn decode_total() {
    let b: [u8; 8] = kani::any();
    let _ = decompress(&b, kani::any());
}

// the grid colour the range fit makes of an 8-bit colour (Verus: gridded, vec) packs to the nearest levels
#[kani::proof]
fn range_levels() {
    let c: u8 = kani::any();
    let n = f32::from(c) / 255.0;
    let onto = |g: f32| libm::truncf(g * 1f32.min(0f32.max(n)) + 0.5) * (1.0 / g);
    let (x, y) = (onto(31.0), onto(63.0));
    let v = pack_565(&Vec3::new(x, y, x)) as u32;
    let level = |top: u32| (2 * top * c as u32 + 255) / 510;
    assert!(v == level(31) << 11 | level(63) << 5 | level(31), "nearest levels");
    let (k, d): (u32, _) = (kani::any(), |k: u32, top: u32| (k as i32 * 255 - c as i32 * top as i32).abs());
    kani::assume(k < 64);
    assert!(d(level(63), 63) <= d(k, 63) && (k > 31 || d(level(31), 31) <= d(k, 31)), "no level is nearer");
}
