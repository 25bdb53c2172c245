// Group `single`: the lookup tables of SingleColourFit against the format definition, and the
// conversions it relies on (the fit itself: Verus, unit single).
use super::*;

fn expand5(k: i32) -> i32 {
    k * 8 + k / 4
}
fn expand6(k: i32) -> i32 {
    k * 4 + k / 16
}
fn blend(p: i32, q: i32, three: bool, index: usize) -> i32 {
    if index == 0 {
        p
    } else if three {
        (p + q) / 2
    } else {
        (2 * p + q) / 3
    }
}
// every entry's error is exact, and no pair of levels does better
fn table(lut: &[SingleColourLookup; 256], bits: u32, three: bool) {
    let c: u8 = kani::any();
    let i: usize = if kani::any() { 1 } else { 0 };
    let n = 1i32 << bits;
    let e = |k: i32| if bits == 5 { expand5(k) } else { expand6(k) };
    let s = &lut[c as usize].sources[i];
    assert!((s.start as i32) < n && (s.end as i32) < n, "levels in range");
    let got = (blend(e(s.start as i32), e(s.end as i32), three, i) - c as i32).abs();
    assert!(got == s.error as i32, "stored error is the error of the stored levels");
    let (a, b): (u8, u8) = (kani::any(), kani::any());
    kani::assume((a as i32) < n && (b as i32) < n);
    let other = (blend(e(a as i32), e(b as i32), three, i) - c as i32).abs();
    assert!(s.error as i32 <= other, "no pair of levels is nearer");
}
#[kani::proof]
fn table_5_3() {
    table(&LOOKUP_5_3, 5, true);
}
#[kani::proof]
fn table_6_3() {
    table(&LOOKUP_6_3, 6, true);
}
#[kani::proof]
fn table_5_4() {
    table(&LOOKUP_5_4, 5, false);
}
#[kani::proof]
fn table_6_4() {
    table(&LOOKUP_6_4, 6, false);
}
// what the Verus units know of the conversion
#[kani::proof]
fn clamped() {
    let l: i32 = if kani::any() { 255 } else if kani::any() { 63 } else { 31 };
    let r = f32_to_i32_clamped(f32::from_bits(kani::any()), l);
    assert!(0 <= r && r <= l, "within the limit for every float, NaN included");
}
// colours survive the trip through [0, 1], levels survive packing
#[kani::proof]
fn round_trip() {
    let c: u8 = kani::any();
    assert!(f32_to_i32_clamped(f32::from(c) / 255f32 * 255.0, 255) == c as i32, "8-bit value");
    let k: u8 = kani::any();
    if k < 32 {
        assert!(f32_to_i32_clamped(31.0 * (f32::from(k) / 31.0), 31) == k as i32, "5-bit level");
    }
    if k < 64 {
        assert!(f32_to_i32_clamped(63.0 * (f32::from(k) / 63.0), 63) == k as i32, "6-bit level");
    }
}
