// Group `encode`: compress_block_masked with its callees replaced by what is proved of them.
//   ColourSet::new                 set_facts (Verus, unit colourset); remap_indices is the real one
//   a fit's new, compress3/4       Verus, units fits and single: the block kept is the old one, or
//                                  write3 / write4 of some ends and of remap_indices of indices up
//                                  to 2 / 3; the first pass writes if the weights are moderate
//   write3, write4                 the real ones (their own contracts: group block)
//   pack_565                       any value
//   compress_bc2 / compress_bc3    any eight bytes (groups alpha, alphaapi say which)
use super::*;
#[allow(dead_code)]
mod spec {
    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/spec.rs"));
}

static mut PAIR: (usize, usize) = (0, 0);
static mut FIRST: bool = false;
static mut READY: bool = false;
static mut KIND: u8 = 9;
static mut OPS: [u8; 2] = [0; 2];
pub(crate) static mut ONE: bool = false;
pub(crate) static mut KEPT: [u8; 8] = [0; 8];
static mut STEPS: usize = 0;
pub(crate) static mut RANGE: bool = false;
pub(crate) static mut TWO: Option<bool> = None;
static mut TOOK: (u8, u8) = (0, 0);


pub(crate) fn pair() -> (usize, usize) {
    unsafe { PAIR }
}
/// a fit is made: its precondition, and whether its first pass is sure to write
pub(crate) fn start(kind: u8, pre: bool, ready: bool) -> [u8; 8] {
    assert!(pre, "precondition of the fit");
    unsafe {
        KIND = kind;
        FIRST = true;
        READY = ready;
        STEPS = 0;
    }
    [0; 8]
}
/// v3(weights, 20), see unit fits
pub(crate) fn moderate(w: [f32; 3]) -> bool {
    let m = |x: f32| x.to_bits() & 0x7fff_ffff <= 0x4980_0000;
    m(w[0]) && m(w[1]) && m(w[2])
}
/// indices written by a pass, None if it keeps the block it has
#[allow(static_mut_refs)]
pub(crate) fn pass(op: u8, set: &colourset::ColourSet, max: u8) -> Option<[u8; 16]> {
    let un: [u8; 16] = kani::any();
    let mut idx = [0u8; 16];
    let must = unsafe {
        assert!(STEPS < 2, "at most two passes over a block");
        OPS[STEPS] = op;
        STEPS += 1;
        let m = FIRST && READY;
        FIRST = false;
        m
    };
    for k in 0..16 {
        kani::assume(un[k] <= max);
    }
    // harness c21: every pixel takes the index of its own end (Verus: unit pair, exact)
    if let Some(flip) = unsafe { TWO } {
        kani::assume(un[0] == flip as u8 && un[1] == !flip as u8);
    }
    if !must && kani::any() {
        return None;
    }
    set.remap_indices(&un, &mut idx);
    // harness c23: the index the first pixel's entry takes (Verus: remapped)
    unsafe { TOOK = (op, idx[PAIR.0]) };
    Some(idx)
}
/// nearest level of an 8-bit value
pub(crate) fn level(c: u8, top: u32) -> u32 {
    (2 * top * c as u32 + 255) / 510
}
pub(crate) fn levels(p: &[u8; 4]) -> u16 {
    (level(p[0], 31) << 11 | level(p[1], 63) << 5 | level(p[2], 31)) as u16
}
fn bc3_any(_: &[[u8; 4]; 16], channel: usize, _: u32, block: &mut [u8]) {
    assert!(channel < 4 && block.len() == 8, "pre: a channel, an 8-byte block");
    let b: [u8; 8] = kani::any();
    block.copy_from_slice(&b);
}
fn bc2_any(_: &[[u8; 4]; 16], _: u32, block: &mut [u8]) {
    assert!(block.len() == 8, "pre: an 8-byte block");
    let b: [u8; 8] = kani::any();
    block.copy_from_slice(&b);
}
fn params() -> Params {
    let a: u8 = kani::any();
    Params {
        algorithm: match a % 3 {
            0 => Algorithm::RangeFit,
            1 => Algorithm::ClusterFit,
            _ => Algorithm::IterativeClusterFit,
        },
        weights: [f32::from_bits(kani::any()), f32::from_bits(kani::any()), f32::from_bits(kani::any())],
        weigh_colour_by_alpha: kani::any(),
    }
}
fn any_format() -> Format {
    match kani::any::<u8>() % 5 {
        0 => Format::Bc1,
        1 => Format::Bc2,
        2 => Format::Bc3,
        3 => Format::Bc4,
        _ => Format::Bc5,
    }
}
fn choose() -> (usize, usize) {
    let p: (usize, usize) = (kani::any(), kani::any());
    kani::assume(p.0 < 16 && p.1 < 16);
    unsafe { PAIR = p };
    p
}
fn half(out: &[u8; 16], f: Format) -> [u8; 8] {
    let mut b = [0u8; 8];
    let h = if f == Format::Bc1 { 0 } else { 8 };
    for k in 0..8 {
        b[k] = out[h + k];
    }
    b
}

// C08: BC1 keeps binary alpha
#[kani::proof]
#[kani::unwind(18)]
#[kani::solver(kissat)]
#[kani::stub(crate::alpha::compress_bc3, bc3_any)]
#[kani::stub(crate::alpha::compress_bc2, bc2_any)]
#[kani::stub(crate::colourblock::pack_565, crate::colourblock::verif::pack_any)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::facts)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::any_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::op3)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::op4)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::any_fit)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::op3)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::op4)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::any_fit)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::op3)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::op4)]
fn c08() {
    let p = params();
    let w = |x: f32| x >= 0.0 && x <= 1.0;
    kani::assume(w(p.weights[0]) && w(p.weights[1]) && w(p.weights[2]));
    let (i, _) = choose();
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let mut out: [u8; 16] = kani::any();
    Format::Bc1.compress_block_masked(rgba, mask, p, &mut out[..8]);
    let b = half(&out, Format::Bc1);
    let got = spec::cpal(&b, true, spec::cidx(&b, i));
    if mask >> i & 1 != 0 {
        if rgba[i][3] < 128 {
            assert!(got == [0, 0, 0, 0], "transparent stays transparent black");
        } else {
            assert!(got[3] == 255, "opaque stays opaque");
        }
    }
    kani::cover!(mask >> i & 1 != 0 && rgba[i][3] < 128, "transparent pixel");
    kani::cover!(unsafe { STEPS } == 2 && mask >> i & 1 != 0, "both passes");
}

// C16: equal pixels stay equal
#[kani::proof]
#[kani::unwind(18)]
#[kani::solver(kissat)]
#[kani::stub(crate::alpha::compress_bc3, bc3_any)]
#[kani::stub(crate::alpha::compress_bc2, bc2_any)]
#[kani::stub(crate::colourblock::pack_565, crate::colourblock::verif::pack_any)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::facts)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::any_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::op3)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::op4)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::any_fit)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::op3)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::op4)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::any_fit)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::op3)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::op4)]
fn c16() {
    let f = match kani::any::<u8>() % 3 {
        0 => Format::Bc1,
        1 => Format::Bc2,
        _ => Format::Bc3,
    };
    let p = params();
    let (i, j) = choose();
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    kani::assume(mask >> i & 1 != 0 && mask >> j & 1 != 0);
    kani::assume(rgba[i][0] == rgba[j][0] && rgba[i][1] == rgba[j][1] && rgba[i][2] == rgba[j][2]);
    kani::assume(f != Format::Bc1 || (rgba[i][3] < 128) == (rgba[j][3] < 128));
    let mut out: [u8; 16] = kani::any();
    f.compress_block_masked(rgba, mask, p, &mut out[..f.block_size()]);
    let b = half(&out, f);
    let (x, y) = (spec::cidx(&b, i), spec::cidx(&b, j));
    assert!(spec::cpal(&b, f == Format::Bc1, x) == spec::cpal(&b, f == Format::Bc1, y), "equal colours decode alike");
    kani::cover!(i != j && x != 0 && f == Format::Bc1, "bc1");
}

// C14: any pixels, mask, algorithm and weights: no panic outside the callees' contracts
#[kani::proof]
#[kani::unwind(18)]
#[kani::solver(kissat)]
#[kani::stub(crate::alpha::compress_bc3, bc3_any)]
#[kani::stub(crate::alpha::compress_bc2, bc2_any)]
#[kani::stub(crate::colourblock::pack_565, crate::colourblock::verif::pack_any)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::facts)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::any_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::op3)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::op4)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::any_fit)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::op3)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::op4)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::any_fit)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::op3)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::op4)]
fn c14() {
    let f = any_format();
    let p = params();
    choose();
    let rgba: [[u8; 4]; 16] = kani::any();
    let mut out: [u8; 16] = kani::any();
    f.compress_block_masked(rgba, kani::any(), p, &mut out[..f.block_size()]);
    kani::cover!(unsafe { STEPS } == 2, "both passes");
}

// C12: one used colour: the single colour fit decides, in the order of its contract
#[kani::proof]
#[kani::unwind(18)]
#[kani::solver(kissat)]
#[kani::stub(crate::alpha::compress_bc3, bc3_any)]
#[kani::stub(crate::alpha::compress_bc2, bc2_any)]
#[kani::stub(crate::colourblock::pack_565, crate::colourblock::verif::pack_any)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::facts)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::any_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::op3)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::op4)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::any_fit)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::op3)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::op4)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::any_fit)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::op3)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::op4)]
fn c12() {
    let f = match kani::any::<u8>() % 3 {
        0 => Format::Bc1,
        1 => Format::Bc2,
        _ => Format::Bc3,
    };
    let p = params();
    let (i, j) = choose();
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let vis = |k: usize| mask >> k & 1 != 0;
    let clear = |k: usize| f == Format::Bc1 && rgba[k][3] < 128;
    kani::assume(vis(i) && !clear(i));
    let mut transparent = false;
    for k in 0..16 {
        kani::assume(!vis(k) || clear(k) || (rgba[k][0] == rgba[i][0] && rgba[k][1] == rgba[i][1] && rgba[k][2] == rgba[i][2]));
        transparent |= vis(k) && clear(k);
    }
    // (j stands for every pixel in the facts about the set)
    kani::assume(!transparent || (vis(j) && clear(j)));
    unsafe { ONE = true };
    let mut out: [u8; 16] = kani::any();
    f.compress_block_masked(rgba, mask, p, &mut out[..f.block_size()]);
    let (kind, ops, steps) = unsafe { (KIND, OPS, STEPS) };
    assert!(kind == 0, "the single colour fit");
    if f != Format::Bc1 {
        assert!(steps == 1 && ops[0] == 4, "four colours");
    } else if transparent {
        assert!(steps == 1 && ops[0] == 3, "three colours");
    } else {
        assert!(steps == 2 && ops[0] == 3 && ops[1] == 4, "three colours, then four");
    }
    let b = half(&out, f);
    let k: usize = kani::any();
    kani::assume(k < 8);
    assert!(b[k] == unsafe { KEPT[k] }, "the block is the one the fit kept");
    kani::cover!(f == Format::Bc1 && transparent, "bc1 with a transparent pixel");
    kani::cover!(f == Format::Bc3, "bc3");
}

// C13: range fit stays within the rounded range of every channel
#[kani::proof]
#[kani::unwind(18)]
#[kani::solver(kissat)]
#[kani::stub(crate::alpha::compress_bc3, bc3_any)]
#[kani::stub(crate::alpha::compress_bc2, bc2_any)]
#[kani::stub(crate::colourblock::pack_565, crate::colourblock::verif::pack_any)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::facts)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::any_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::op3)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::op4)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::any_fit)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::op3)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::op4)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::any_fit)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::op3)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::op4)]
fn c13() {
    let f = match kani::any::<u8>() % 3 {
        0 => Format::Bc1,
        1 => Format::Bc2,
        _ => Format::Bc3,
    };
    let mut p = params();
    p.algorithm = Algorithm::RangeFit;
    kani::assume(moderate(p.weights));
    let (i, _) = choose();
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let used = |k: usize| mask >> k & 1 != 0 && !(f == Format::Bc1 && rgba[k][3] < 128);
    kani::assume(used(i));
    unsafe { RANGE = true };
    let mut out: [u8; 16] = kani::any();
    f.compress_block_masked(rgba, mask, p, &mut out[..f.block_size()]);
    assert!(unsafe { KIND } == 1, "the range fit");
    let b = half(&out, f);
    let got = spec::cpal(&b, f == Format::Bc1, spec::cidx(&b, i));
    let ch: usize = kani::any();
    kani::assume(ch < 3);
    let (mut lo, mut hi) = (255u8, 0u8);
    for k in 0..16 {
        if used(k) {
            lo = if rgba[k][ch] < lo { rgba[k][ch] } else { lo };
            hi = if rgba[k][ch] > hi { rgba[k][ch] } else { hi };
        }
    }
    let top = if ch == 1 { 63 } else { 31 };
    let wide = |c: u8| {
        let l = level(c, top) as i32;
        if ch == 1 { l * 4 + l / 16 } else { l * 8 + l / 4 }
    };
    assert!(wide(lo) <= got[ch] && got[ch] <= wide(hi), "within the rounded range");
    kani::cover!(f == Format::Bc1 && got[ch] != wide(lo) && got[ch] != wide(hi), "a blend");
}

// C21: two colours of the grid, told apart by the principal axis, are kept exactly
#[kani::proof]
#[kani::unwind(18)]
#[kani::solver(kissat)]
#[kani::stub(crate::alpha::compress_bc3, bc3_any)]
#[kani::stub(crate::alpha::compress_bc2, bc2_any)]
#[kani::stub(crate::colourblock::pack_565, crate::colourblock::verif::pack_any)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::facts)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::any_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::op3)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::op4)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::any_fit)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::op3)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::op4)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::any_fit)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::op3)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::op4)]
fn c21() {
    let f = match kani::any::<u8>() % 3 {
        0 => Format::Bc1,
        1 => Format::Bc2,
        _ => Format::Bc3,
    };
    let mut p = params();
    p.algorithm = Algorithm::RangeFit;
    let fair = |x: f32| 0.0625 <= x && x <= 16.0;
    kani::assume(fair(p.weights[0]) && fair(p.weights[1]) && fair(p.weights[2]));
    let (i, j) = choose();
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let used = |k: usize| mask >> k & 1 != 0 && !(f == Format::Bc1 && rgba[k][3] < 128);
    let grid = |q: &[u8; 4]| q[0] & 7 == q[0] >> 5 && q[1] & 3 == q[1] >> 6 && q[2] & 7 == q[2] >> 5;
    kani::assume(used(i) && used(j) && rgba[i][3] == 255 && rgba[j][3] == 255 && grid(&rgba[i]) && grid(&rgba[j]));
    kani::assume(rgba[i][0] != rgba[j][0] || rgba[i][1] != rgba[j][1] || rgba[i][2] != rgba[j][2]);
    unsafe { TWO = Some(kani::any()) };
    let mut out: [u8; 16] = kani::any();
    f.compress_block_masked(rgba, mask, p, &mut out[..f.block_size()]);
    assert!(unsafe { KIND } == 1, "the range fit");
    let b = half(&out, f);
    let got = spec::cpal(&b, f == Format::Bc1, spec::cidx(&b, i));
    assert!(got == [rgba[i][0] as i32, rgba[i][1] as i32, rgba[i][2] as i32, 255], "the colour itself");
    kani::cover!(f == Format::Bc1 && unsafe { STEPS } == 1, "bc1 with a transparent pixel");
    kani::cover!(f == Format::Bc3, "bc3");
}

// C23: the block's palette is that of the ends and the pixel decodes to the code its entry took, which
// is one no other is much nearer than (Verus: unit near, matched)
#[kani::proof]
#[kani::unwind(18)]
#[kani::solver(kissat)]
#[kani::stub(crate::alpha::compress_bc3, bc3_any)]
#[kani::stub(crate::alpha::compress_bc2, bc2_any)]
#[kani::stub(crate::colourblock::pack_565, crate::colourblock::verif::pack_any)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::facts)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::any_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::op3)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::op4)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::any_fit)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::op3)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::op4)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::any_fit)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::op3)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::op4)]
fn c23() {
    let f = match kani::any::<u8>() % 3 {
        0 => Format::Bc1,
        1 => Format::Bc2,
        _ => Format::Bc3,
    };
    let mut p = params();
    p.algorithm = Algorithm::RangeFit;
    let fair = |x: f32| 0.0625 <= x && x <= 16.0;
    kani::assume(fair(p.weights[0]) && fair(p.weights[1]) && fair(p.weights[2]));
    let (i, _) = choose();
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    kani::assume(mask >> i & 1 != 0 && !(f == Format::Bc1 && rgba[i][3] < 128));
    unsafe { RANGE = true };
    let mut out: [u8; 16] = kani::any();
    f.compress_block_masked(rgba, mask, p, &mut out[..f.block_size()]);
    assert!(unsafe { KIND } == 1, "the range fit");
    let b = half(&out, f);
    let (c, d) = unsafe { crate::colourblock::verif::ENDS }.unwrap();
    let (op, took) = unsafe { TOOK };
    assert!(took < op, "an index of the codes");
    let code = |j: u8| {
        let (g, h) = (spec::expand565(c as u32), spec::expand565(d as u32));
        let mut o = [0, 0, 0, 255];
        for k in 0..3 {
            o[k] = match (j, op) {
                (0, _) => g[k],
                (1, _) => h[k],
                (_, 3) => (g[k] + h[k]) / 2,
                (2, _) => (2 * g[k] + h[k]) / 3,
                _ => (g[k] + 2 * h[k]) / 3,
            };
        }
        o
    };
    assert!(spec::cpal(&b, f == Format::Bc1, spec::cidx(&b, i)) == code(took), "the code the pixel took");
    let k: u8 = kani::any();
    kani::assume(k < 4);
    let other = spec::cpal(&b, f == Format::Bc1, k as _);
    assert!(other[3] == 0 || other == code(0) || other == code(1) || other == code(2) || op == 4 && other == code(3), "the palette of the ends");
    kani::cover!(f == Format::Bc1 && op == 3 && took == 2, "bc1, three colours");
    kani::cover!(f == Format::Bc3 && took == 3, "bc3");
}
