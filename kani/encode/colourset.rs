// ColourSet::new by what Verus proves of it (unit colourset: set_facts), for the two pixels
// the harness looks at; everything else about the set is arbitrary.
use super::*;

pub(crate) fn facts(rgba: &[[u8; 4]; 16], mask: u32, format: Format, _aw: bool) -> ColourSet {
    let v = Vec3::new(0.0, 0.0, 0.0);
    let s = ColourSet { count: kani::any(), points: [v; 16], weights: [0.0; 16], remap: kani::any(), transparent: kani::any() };
    kani::assume(s.count <= 16);
    let clear = |p: usize| format == Format::Bc1 && rgba[p][3] < 128;
    let vis = |p: usize| mask & (1 << p) != 0;
    let used = |p: usize| vis(p) && !clear(p);
    let mut any_clear = false;
    for p in 0..16 {
        any_clear |= vis(p) && clear(p);
        kani::assume(-1 <= s.remap[p] && (s.remap[p] as i32) < s.count as i32);
    }
    let (i, j) = crate::verif::pair();
    for p in [i, j] {
        kani::assume((s.remap[p] == -1) == !used(p));
    }
    if used(i) && used(j) {
        let eq = rgba[i][0] == rgba[j][0] && rgba[i][1] == rgba[j][1] && rgba[i][2] == rgba[j][2];
        kani::assume((s.remap[i] == s.remap[j]) == eq);
    }
    kani::assume(s.transparent == any_clear);
    // one colour, at least one pixel of it (Verus: one_colour)
    if unsafe { crate::verif::ONE } {
        kani::assume(s.count == 1);
    }
    // harness c13: the ends of the range are the grid colours of two used pixels (Verus: range_end, held;
    // Kani: range_levels)
    if unsafe { crate::verif::RANGE } {
        kani::assume(s.count >= 2);
        let (a, b): (usize, usize) = (kani::any(), kani::any());
        kani::assume(a < 16 && b < 16 && used(a) && used(b));
        unsafe { crate::colourblock::verif::ENDS = Some((crate::verif::levels(&rgba[a]), crate::verif::levels(&rgba[b]))) };
    }
    // harness c21: two colours, those of i and j (Verus: two_colours); the ends of the range are
    // theirs, in either order (Verus: unit pair, ends)
    if let Some(flip) = unsafe { crate::verif::TWO } {
        kani::assume(s.count == 2 && s.remap[i] >= 0 && s.remap[j] == 1 - s.remap[i]);
        let (a, b) = if s.remap[i] == 0 { (i, j) } else { (j, i) };
        let (a, b) = if flip { (b, a) } else { (a, b) };
        unsafe { crate::colourblock::verif::ENDS = Some((crate::verif::levels(&rgba[a]), crate::verif::levels(&rgba[b]))) };
    }
    s
}
