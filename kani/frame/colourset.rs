// ColourSet::new by its frame contract (Verus, alike_sets): alike inputs give equal sets.
use super::*;

type Px = [[u8; 4]; 16];
static mut ARGS: Option<(Px, u32, Format, bool)> = None;
static mut SETS: [Option<ColourSet>; 2] = [None, None];

fn vec(v: Vec3) -> Vec3 {
    Vec3::new(v.x(), v.y(), v.z())
}
fn copy(s: &ColourSet) -> ColourSet {
    ColourSet { count: s.count, points: s.points, weights: s.weights, remap: s.remap, transparent: s.transparent }
}
fn any_vec() -> Vec3 {
    Vec3::new(f32::from_bits(kani::any()), f32::from_bits(kani::any()), f32::from_bits(kani::any()))
}
fn any_set() -> ColourSet {
    let count: usize = kani::any();
    kani::assume(count <= 16);
    let mut points = [Vec3::new(0f32, 0f32, 0f32); 16];
    let mut weights = [0f32; 16];
    let mut i = 0;
    while i < 16 {
        points[i] = any_vec();
        weights[i] = f32::from_bits(kani::any());
        i += 1;
    }
    ColourSet { count, points, weights, remap: kani::any(), transparent: kani::any() }
}
fn used(p: &Px, m: u32, f: Format, i: usize) -> bool {
    m >> i & 1 != 0 && !(f == Format::Bc1 && p[i][3] < 128)
}
/// Verus: wpx(s, aw, i) == wpx(t, bw, i), where 256 / 256 == 1 (obligation div256)
fn same_weight(a: u8, aw: bool, b: u8, bw: bool) -> bool {
    match (aw, bw) {
        (true, true) => a == b,
        (false, false) => true,
        (true, false) => a == 255,
        (false, true) => b == 255,
    }
}
fn alike(s: &Px, m: u32, f: Format, aw: bool, t: &Px, n: u32, g: Format, bw: bool) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < 16 {
        let u = used(s, m, f, i);
        ok = ok && u == used(t, n, g, i);
        if u {
            ok = ok && s[i][0] == t[i][0] && s[i][1] == t[i][1] && s[i][2] == t[i][2] && same_weight(s[i][3], aw, t[i][3], bw);
        }
        ok = ok && (m >> i & 1 != 0 && f == Format::Bc1 && s[i][3] < 128) == (n >> i & 1 != 0 && g == Format::Bc1 && t[i][3] < 128);
        i += 1;
    }
    ok
}
#[allow(static_mut_refs)]
pub(crate) fn memo_set(rgba: &[[u8; 4]; 16], mask: u32, format: Format, alpha_weighted: bool) -> ColourSet {
    unsafe {
        if let Some((s, m, f, aw)) = &ARGS {
            if alike(s, *m, *f, *aw, rgba, mask, format, alpha_weighted) {
                return copy(SETS[0].as_ref().unwrap());
            }
            return any_set();
        }
        ARGS = Some((*rgba, mask, format, alpha_weighted));
        let s = any_set();
        let r = copy(&s);
        SETS[0] = Some(s);
        r
    }
}
/// the set the first fit was given
#[allow(static_mut_refs)]
pub(crate) fn keep(s: &ColourSet, _first: bool) {
    unsafe { SETS[1] = Some(copy(s)) };
}
fn bits(v: &Vec3) -> [u32; 3] {
    let v = vec(*v);
    [v.x().to_bits(), v.y().to_bits(), v.z().to_bits()]
}
#[allow(static_mut_refs)]
pub(crate) fn is_kept(s: &ColourSet) -> bool {
    let t = unsafe { SETS[1].as_ref() };
    let t = match t {
        Some(t) => t,
        None => return false,
    };
    let mut ok = s.count == t.count && s.transparent == t.transparent;
    let mut i = 0;
    while i < 16 {
        ok = ok && bits(&s.points[i]) == bits(&t.points[i]) && s.weights[i].to_bits() == t.weights[i].to_bits() && s.remap[i] == t.remap[i];
        i += 1;
    }
    ok
}
// the weight of an opaque pixel, (255 + 1) as f32 / 256, is exactly 1
#[kani::proof]
fn div256() {
    let a: u8 = kani::any();
    kani::assume(a == 255);
    assert!(((i32::from(a) + 1) as f32 / 256f32).to_bits() == 1f32.to_bits(), "256 / 256 is 1");
    assert!(256f32.to_bits() == 0x4380_0000 && 1f32.to_bits() == 0x3f80_0000, "the literals as the Verus unit writes them");
    kani::cover!(true, "reached");
}
