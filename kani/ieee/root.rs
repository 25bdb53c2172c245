// Group `ieee`: the facts about single precision used by the Verus units (verus/inc/ieee.vti),
// proved here for all bit patterns. f32 operations are bit-precise in CBMC; libm::truncf is the
// real code.
fn mag(b: u32) -> u32 {
    b & 0x7fff_ffff
}
fn lg(b: u32) -> u32 {
    let m = mag(b);
    if m <= 0x3f80_0000 {
        0
    } else if m <= 0x7f00_0000 {
        (m - 0x3f80_0000 + 0x7f_ffff) / 0x80_0000
    } else if m < 0x7f80_0000 {
        128
    } else {
        1000
    }
}
fn ge1(b: u32) -> bool {
    let m = mag(b);
    0x3f80_0000 <= m && m <= 0x7f80_0000
}
fn any() -> u32 {
    kani::any()
}
fn f(b: u32) -> f32 {
    f32::from_bits(b)
}
fn max(a: u32, b: u32) -> u32 {
    if a >= b {
        a
    } else {
        b
    }
}

#[kani::proof]
#[kani::solver(kissat)]
fn ieee_add() {
    let (a, b) = (any(), any());
    let m = max(lg(a), lg(b));
    kani::assume(m < 127);
    assert!(lg((f(a) + f(b)).to_bits()) <= m + 1, "sum");
}
#[kani::proof]
#[kani::solver(kissat)]
fn ieee_sub() {
    let (a, b) = (any(), any());
    let m = max(lg(a), lg(b));
    kani::assume(m < 127);
    assert!(lg((f(a) - f(b)).to_bits()) <= m + 1, "difference");
}
#[kani::proof]
#[kani::solver(kissat)]
fn ieee_mul() {
    let (a, b) = (any(), any());
    let m = lg(a) + lg(b);
    kani::assume(m <= 127);
    assert!(lg((f(a) * f(b)).to_bits()) <= m, "product");
}
#[kani::proof]
#[kani::solver(kissat)]
fn ieee_div() {
    let (a, b) = (any(), any());
    kani::assume(lg(a) <= 127 && ge1(b));
    assert!(lg((f(a) / f(b)).to_bits()) <= lg(a), "quotient");
}
#[kani::proof]
#[kani::solver(kissat)]
fn ieee_trunc() {
    let a = any();
    kani::assume(lg(a) <= 127);
    assert!(lg(libm::truncf(f(a)).to_bits()) <= lg(a), "truncation");
}
#[kani::proof]
#[kani::solver(kissat)]
fn ieee_clamp() {
    let a = any();
    assert!(lg(1.0f32.min(0.0f32.max(f(a))).to_bits()) == 0, "clamp");
}
#[kani::proof]
#[kani::solver(kissat)]
fn ieee_lt_max() {
    let a = any();
    kani::assume(lg(a) <= 127);
    assert!(f(a).partial_cmp(&f32::MAX) == Some(core::cmp::Ordering::Less), "below f32::MAX");
}
#[kani::proof]
#[kani::solver(kissat)]
fn ieee_pos_add() {
    let (a, b) = (any(), any());
    kani::assume(a <= 0x7f80_0000 && b <= 0x7f80_0000);
    assert!((f(a) + f(b)).to_bits() <= 0x7f80_0000, "sum of non-negative numbers");
}
#[kani::proof]
fn ieee_colour() {
    let n: u8 = kani::any();
    assert!(lg((f32::from(n) / 255f32).to_bits()) == 0, "colours are at most 1");
    let v = f32::from(n) / 255f32;
    assert!(!(v > 1.0) && !(v < 0.0), "and not negative");
}
#[kani::proof]
fn ieee_alpha() {
    let n: u8 = kani::any();
    let w = ((i32::from(n) + 1) as f32 / 256f32).to_bits();
    assert!(lg(w) == 0 && w <= 0x7f80_0000, "pixels weigh at most 1");
}
// unit pair: two colours of the 5:6:5 grid. x: a channel's value, g: its own end of the range,
// c: any other code; squares of differences of f32 are exact in f64, and 1e-14 is more than what
// the subtraction of two of them rounds away
fn pair(top: f32, l: u8, m: u8, wide: impl Fn(u8) -> u8, far: bool) {
    let value = |l: u8| f32::from(wide(l)) / 255.0;
    let onto = |x: f32| libm::truncf(top * 1f32.min(0f32.max(x)) + 0.5) * (1.0 / top);
    let (x, g, h) = (value(l), onto(value(l)), onto(value(m)));
    let mixed = |k: u8, s: f32, e: f32| match k {
        1 => s * 0.5 + e * 0.5,
        2 => s * (2.0 / 3.0) + e * (1.0 / 3.0),
        _ => s * (1.0 / 3.0) + e * (2.0 / 3.0),
    };
    for k in 0..7 {
        let c = match k {
            0 => h,
            1..=3 => mixed(k, g, h),
            _ => mixed(k - 3, h, g),
        };
        let (eo, ec) = ((x - g) as f64, (x - c) as f64);
        assert!(eo.abs() <= 1.0 && ec.abs() <= 1.0, "differences are finite");
        assert!(eo * eo <= 7.9e-6, "own end is close");
        if l == m {
            assert!(ec * ec - eo * eo >= -3.4e-10 + 1e-14, "equal levels: hardly closer");
        }
        if far {
            assert!(ec * ec - eo * eo >= 5.2e-5 + 1e-14, "other levels: farther");
        }
    }
}
#[kani::proof]
#[kani::unwind(9)]
fn ieee_pair_five() {
    let (l, m): (u8, u8) = (kani::any(), kani::any());
    kani::assume(l < 32 && m < 32);
    pair(31.0, l, m, |l| l * 8 + l / 4, l != m);
}
#[kani::proof]
#[kani::unwind(9)]
fn ieee_pair_six() {
    let (l, m): (u8, u8) = (kani::any(), kani::any());
    kani::assume(l < 64 && m < 64);
    pair(63.0, l, m, |l| l * 4 + l / 16, l >= m + 2 || m >= l + 2);
}
/// f_swap, f_asym, f_commute
#[kani::proof]
fn ieee_order() {
    use core::cmp::Ordering::*;
    let (a, b) = (f(any()), f(any()));
    assert!((a.partial_cmp(&b) == Some(Less)) == (b.partial_cmp(&a) == Some(Greater)), "less is greater turned round");
    assert!(!(a.partial_cmp(&b) == Some(Less) && b.partial_cmp(&a) == Some(Less)), "not both");
    assert!((a < b) == (a.partial_cmp(&b) == Some(Less)) && (a > b) == (a.partial_cmp(&b) == Some(Greater)), "operators");
}
// unit near: the range fit's ends and codes, and the palette a decoder makes of their levels
#[kani::proof]
fn ieee_onto() {
    let c: u8 = kani::any();
    let x = f32::from(c) / 255.0;
    let onto = |top: f32| libm::truncf(top * 1f32.min(0f32.max(x)) + 0.5) * (1.0 / top);
    let level = |top: u32| ((2 * top * c as u32 + 255) / 510) as u8;
    assert!(level(31) < 32 && level(63) < 64, "levels");
    assert!(onto(31.0).to_bits() == (f32::from(level(31)) * (1.0 / 31.0)).to_bits(), "five bits");
    assert!(onto(63.0).to_bits() == (f32::from(level(63)) * (1.0 / 63.0)).to_bits(), "six bits");
}
fn codes(top: f32, l: u8, m: u8, wide: impl Fn(u8) -> u8) {
    let (g, h) = (f32::from(l) * (1.0 / top), f32::from(m) * (1.0 / top));
    let (p, q) = (i32::from(wide(l)), i32::from(wide(m)));
    let close = |c: f32, n: i32| {
        assert!(0.0 <= c && c <= 1.0, "codes are in range");
        // a product of 24 and 8 bits and the difference are exact in f64
        let d = 255.0 * c as f64 - n as f64;
        assert!(-1.4 <= d && d <= 1.4, "decoded entry");
    };
    close(g, p);
    close(g * 0.5 + h * 0.5, (p + q) / 2);
    close(g * (2.0 / 3.0) + h * (1.0 / 3.0), (2 * p + q) / 3);
    close(g * (1.0 / 3.0) + h * (2.0 / 3.0), (p + 2 * q) / 3);
}
#[kani::proof]
fn ieee_code_five() {
    let (l, m): (u8, u8) = (kani::any(), kani::any());
    kani::assume(l < 32 && m < 32);
    codes(31.0, l, m, |l| l * 8 + l / 4);
}
#[kani::proof]
fn ieee_code_six() {
    let (l, m): (u8, u8) = (kani::any(), kani::any());
    kani::assume(l < 64 && m < 64);
    codes(63.0, l, m, |l| l * 4 + l / 16);
}
