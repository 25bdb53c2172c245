// Group `frame`: compress_block_masked run twice (or more) on related inputs. Callees are
// represented by their frame contracts, each proved elsewhere:
//   compress_bc3 / compress_bc2   a function of the visible values of the channel and of the
//                                 low 16 mask bits, writing the whole slice (bc3_frame, bc2_frame)
//   ColourSet::new                alike inputs give equal sets (Verus: alike_sets)
//   a fit's new and compress3/4   a function of the set, the channel weights and the number of
//                                 iterations; the format only decides is_bc1 (Verus: unit fits)
// A memo plays the function: equal arguments, equal results; otherwise anything.
use super::*;

pub(crate) static mut PASS: usize = 0;
const LOG: usize = 4;
static mut CALLS: usize = 0;
static mut ALPHA: [bool; LOG] = [false; LOG]; // made by compress_bc2
static mut VALS: [[u8; 16]; LOG] = [[0; 16]; LOG];
static mut WMASK: [u32; LOG] = [0; LOG];
static mut OUT: [[u8; 8]; LOG] = [[0; 8]; LOG];

#[allow(static_mut_refs)]
fn memo(alpha: bool, channel: usize, rgba: &[[u8; 4]; 16], mask: u32, block: &mut [u8]) {
    let mut bytes: [u8; 8] = kani::any();
    unsafe {
        assert!(CALLS < LOG, "call log large enough");
        let mut v = [0u8; 16];
        let mut i = 0;
        while i < 16 {
            v[i] = if mask >> i & 1 != 0 { rgba[i][channel] } else { 0 };
            i += 1;
        }
        let mut c = 0;
        while c < CALLS {
            if ALPHA[c] == alpha && (WMASK[c] ^ mask) & 0xffff == 0 && VALS[c] == v {
                bytes = OUT[c];
            }
            c += 1;
        }
        ALPHA[CALLS] = alpha;
        VALS[CALLS] = v;
        WMASK[CALLS] = mask;
        OUT[CALLS] = bytes;
        CALLS += 1;
    }
    assert!(block.len() == 8, "pre: an 8-byte block");
    block.copy_from_slice(&bytes);
}
fn bc3_memo(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, block: &mut [u8]) {
    assert!(channel < 4, "pre: a channel");
    memo(false, channel, rgba, mask, block);
}
fn bc2_memo(rgba: &[[u8; 4]; 16], mask: u32, block: &mut [u8]) {
    memo(true, 3, rgba, mask, block);
}

// fits: which one, on what, and the blocks it had after its calls of compress3 / compress4
static mut FIT: u8 = 9;
static mut BC1: bool = false;
static mut WTS: [u32; 3] = [0; 3];
static mut STEPS: usize = 0;
static mut OP: [u8; 2] = [0; 2];
static mut BLK: [[u8; 8]; 2] = [[0; 8]; 2];
static mut AGREE: bool = false;

#[allow(static_mut_refs)]
pub(crate) fn fit_new(kind: u8, set: &colourset::ColourSet, bc1: bool, w: [u32; 3]) -> [u8; 8] {
    unsafe {
        STEPS = 0;
        if PASS == 0 {
            FIT = kind;
            BC1 = bc1;
            WTS = w;
            AGREE = false;
            colourset::verif::keep(set, true);
        } else {
            AGREE = FIT == kind && BC1 == bc1 && WTS == w && colourset::verif::is_kept(set);
        }
    }
    [0; 8]
}
#[allow(static_mut_refs)]
pub(crate) fn fit_op(op: u8) -> [u8; 8] {
    let mut bytes: [u8; 8] = kani::any();
    unsafe {
        assert!(STEPS < 2, "at most two passes over a block");
        if PASS == 0 {
            OP[STEPS] = op;
            BLK[STEPS] = bytes;
        } else if AGREE && OP[STEPS] == op {
            bytes = BLK[STEPS];
        } else {
            AGREE = false;
        }
        STEPS += 1;
    }
    bytes
}

fn params() -> Params {
    let a: u8 = kani::any();
    Params {
        algorithm: match a % 3 {
            0 => Algorithm::RangeFit,
            1 => Algorithm::ClusterFit,
            _ => Algorithm::IterativeClusterFit,
        },
        weights: [f32::from_bits(kani::any()), f32::from_bits(kani::any()), f32::from_bits(kani::any())],
        weigh_colour_by_alpha: kani::any(),
    }
}
fn any_format() -> Format {
    match kani::any::<u8>() % 5 {
        0 => Format::Bc1,
        1 => Format::Bc2,
        2 => Format::Bc3,
        3 => Format::Bc4,
        _ => Format::Bc5,
    }
}
fn run(pass: usize, f: Format, rgba: [[u8; 4]; 16], mask: u32, p: Params) -> [u8; 16] {
    let mut out: [u8; 16] = kani::any();
    unsafe { PASS = pass };
    let n = f.block_size();
    f.compress_block_masked(rgba, mask, p, &mut out[..n]);
    out
}
fn byte(n: usize) -> usize {
    let k: usize = kani::any();
    kani::assume(k < n);
    k
}

// C07 (and the frame half of C14): neither hidden pixels, nor mask bits above 15, nor the old
// contents of the buffer reach the block
#[kani::proof]
#[kani::unwind(18)]
#[kani::solver(kissat)]
#[kani::stub(crate::alpha::compress_bc3, bc3_memo)]
#[kani::stub(crate::alpha::compress_bc2, bc2_memo)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::memo_set)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::memo_fit)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::memo_fit)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::memo_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::op3)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::op4)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::op3)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::op4)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::op3)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::op4)]
fn masked() {
    let f = any_format();
    let p = params();
    let rgba: [[u8; 4]; 16] = kani::any();
    let mut alt: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let mask2: u32 = kani::any();
    kani::assume((mask ^ mask2) & 0xffff == 0);
    let mut i = 0;
    while i < 16 {
        if mask >> i & 1 != 0 {
            alt[i] = rgba[i];
        }
        i += 1;
    }
    let a = run(0, f, rgba, mask, p);
    let b = run(1, f, alt, mask2, p);
    let k = byte(f.block_size());
    assert!(a[k] == b[k], "the block depends on visible pixels only");
    kani::cover!(f == Format::Bc1 && mask & 0xffff != 0xffff, "bc1");
    kani::cover!(f == Format::Bc5, "bc5");
}

// C15: BC2 and BC3 share their colour encoding; alpha matters to it only when asked for
#[kani::proof]
#[kani::unwind(18)]
#[kani::solver(kissat)]
#[kani::stub(crate::alpha::compress_bc3, bc3_memo)]
#[kani::stub(crate::alpha::compress_bc2, bc2_memo)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::memo_set)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::memo_fit)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::memo_fit)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::memo_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::op3)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::op4)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::op3)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::op4)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::op3)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::op4)]
fn colour_half() {
    let (f, g) = (if kani::any() { Format::Bc2 } else { Format::Bc3 }, if kani::any() { Format::Bc2 } else { Format::Bc3 });
    let p = params();
    let rgba: [[u8; 4]; 16] = kani::any();
    let mut alt = rgba;
    if !p.weigh_colour_by_alpha {
        let other: [u8; 16] = kani::any();
        let mut i = 0;
        while i < 16 {
            alt[i][3] = other[i];
            i += 1;
        }
    }
    let mask: u32 = kani::any();
    let a = run(0, f, rgba, mask, p);
    let b = run(1, g, alt, mask, p);
    let k = byte(8);
    assert!(a[8 + k] == b[8 + k], "BC2 and BC3 share the colour encoding; alpha does not reach it unasked");
    kani::cover!(f != g, "bc2 against bc3");
}

// C15: BC4 depends on red only, BC5 is BC4 of red and BC4 of green, BC3's first half is BC4
// of alpha, BC2's first half depends on alpha only; parameters do not matter to any of them
#[kani::proof]
#[kani::unwind(18)]
#[kani::solver(kissat)]
#[kani::stub(crate::alpha::compress_bc3, bc3_memo)]
#[kani::stub(crate::alpha::compress_bc2, bc2_memo)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::memo_set)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::memo_fit)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::memo_fit)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::memo_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::op3)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::op4)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::op3)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::op4)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::op3)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::op4)]
fn alpha_halves() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mut alt: [[u8; 4]; 16] = kani::any();
    let (ch, from) = (byte(4), byte(4));
    let mask: u32 = kani::any();
    let mut i = 0;
    while i < 16 {
        alt[i][ch] = rgba[i][from];
        i += 1;
    }
    let half: bool = kani::any();
    let f = any_format();
    let g = any_format();
    let a = run(0, f, rgba, mask, params());
    let b = run(1, g, alt, mask, params());
    let h = if half { 8 } else { 0 };
    let k = byte(8);
    // (format, half) and the channel it encodes, on either side
    let src = match (f, half) {
        (Format::Bc3, false) => 3,
        (Format::Bc4, false) => 0,
        (Format::Bc5, false) => 0,
        (Format::Bc5, true) => 1,
        _ => 9,
    };
    let dst = match g {
        Format::Bc3 => 3,
        Format::Bc4 => 0,
        Format::Bc5 => 0,
        _ => 9,
    };
    if src == from && dst == ch {
        assert!(a[h + k] == b[k], "a gradient half is the BC4 block of its channel");
    }
    if f == Format::Bc2 && g == Format::Bc2 && from == 3 && ch == 3 {
        assert!(a[k] == b[k], "the alpha half of BC2 depends on alpha only");
    }
    kani::cover!(src == from && dst == ch && half, "second half");
    kani::cover!(f == Format::Bc2 && g == Format::Bc2 && from == 3 && ch == 3, "bc2");
}

// C19: alpha weighting changes nothing when every visible pixel is opaque
#[kani::proof]
#[kani::unwind(18)]
#[kani::solver(kissat)]
#[kani::stub(crate::alpha::compress_bc3, bc3_memo)]
#[kani::stub(crate::alpha::compress_bc2, bc2_memo)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::memo_set)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::memo_fit)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::memo_fit)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::memo_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::op3)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::op4)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::op3)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::op4)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::op3)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::op4)]
fn opaque() {
    let f = any_format();
    let p = params();
    let mut q = p;
    q.weigh_colour_by_alpha = !p.weigh_colour_by_alpha;
    let mut rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    let mut i = 0;
    while i < 16 {
        if mask >> i & 1 != 0 {
            rgba[i][3] = 255;
        }
        i += 1;
    }
    let a = run(0, f, rgba, mask, p);
    let b = run(1, f, rgba, mask, q);
    let k = byte(f.block_size());
    assert!(a[k] == b[k], "alpha weighting changes nothing for opaque blocks");
    kani::cover!(f == Format::Bc1, "bc1");
}
