// Group `alpha`, API level: Format::compress_block_masked puts the alpha / gradient block of
// the right channel at the right place. compress_bc3 / compress_bc2 and the colour fits are
// represented by their contracts: they write the whole 8-byte slice they are given (any
// values), and nothing else (they hold no other reference).
use super::*;

fn pixel() -> usize {
    let i: usize = kani::any();
    kani::assume(i < 16);
    i
}

static mut CALLS: usize = 0;
static mut KIND: [u8; 4] = [0; 4]; // channel, or 9 for compress_bc2
static mut SEEN: [u8; 4] = [0; 4]; // value of the watched pixel in that channel
static mut WMASK: [u32; 4] = [0; 4];
static mut OUT: [[u8; 8]; 4] = [[0; 8]; 4];
static mut PX: usize = 0;

#[allow(static_mut_refs)]
fn record(kind: u8, channel: usize, rgba: &[[u8; 4]; 16], mask: u32, block: &mut [u8]) {
    let bytes: [u8; 8] = kani::any();
    unsafe {
        assert!(CALLS < 4, "call log large enough");
        KIND[CALLS] = kind;
        SEEN[CALLS] = rgba[PX][channel];
        WMASK[CALLS] = mask;
        OUT[CALLS] = bytes;
        CALLS += 1;
    }
    assert!(block.len() == 8, "pre: an 8-byte block");
    block.copy_from_slice(&bytes);
}
fn bc3_stub(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, block: &mut [u8]) {
    assert!(channel < 4, "pre: a channel");
    record(channel as u8, channel, rgba, mask, block);
}
fn bc2_stub(rgba: &[[u8; 4]; 16], mask: u32, block: &mut [u8]) {
    record(9, 3, rgba, mask, block);
}

/// half `h` of the output is what the call for `kind` wrote, and that call saw this block
#[allow(static_mut_refs)]
fn half_is(out: &[u8; 16], h: usize, kind: u8, channel: usize, rgba: &[[u8; 4]; 16], mask: u32) -> bool {
    let k: usize = kani::any();
    kani::assume(k < 8);
    let mut ok = false;
    unsafe {
        let mut c = 0;
        while c < CALLS {
            let same = KIND[c] == kind
                && (mask >> PX & 1 == 0 || SEEN[c] == rgba[PX][channel])
                && (WMASK[c] ^ mask) & 0xffff == 0
                && out[8 * h + k] == OUT[c][k];
            ok = ok || same;
            c += 1;
        }
        ok && CALLS <= 2
    }
}
fn params() -> Params {
    let a: u8 = kani::any();
    Params {
        algorithm: match a % 3 {
            0 => Algorithm::RangeFit,
            1 => Algorithm::ClusterFit,
            _ => Algorithm::IterativeClusterFit,
        },
        weights: [kani::any(), kani::any(), kani::any()],
        weigh_colour_by_alpha: kani::any(),
    }
}

#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(crate::alpha::compress_bc3, bc3_stub)]
#[kani::stub(crate::alpha::compress_bc2, bc2_stub)]
fn api_bc4_bc5() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    unsafe { PX = pixel() };
    let fill: [u8; 16] = kani::any();
    let mut out = fill;
    let five: bool = kani::any();
    if five {
        Format::Bc5.compress_block_masked(rgba, mask, params(), &mut out);
        assert!(half_is(&out, 0, 0, 0, &rgba, mask), "BC5 first half is the gradient block of red");
        assert!(half_is(&out, 1, 1, 1, &rgba, mask), "BC5 second half is the gradient block of green");
    } else {
        Format::Bc4.compress_block_masked(rgba, mask, params(), &mut out[..8]);
        assert!(half_is(&out, 0, 0, 0, &rgba, mask), "BC4 is the gradient block of red");
    }
    kani::cover!(five, "bc5");
    kani::cover!(!five, "bc4");
}


// BC2 and BC3: the first half is the alpha encoder's, the colour encoder only gets the second
// half. The colour encoders are cut off by the weakest contract: a fit's best_compressed is
// any 8 bytes (so is the number of colours).
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(crate::alpha::compress_bc3, bc3_stub)]
#[kani::stub(crate::alpha::compress_bc2, bc2_stub)]
#[kani::stub(crate::colourset::ColourSet::new, crate::colourset::verif::any_set)]
#[kani::stub(crate::colourfit::SingleColourFit::new, crate::colourfit::single::verif::any_fit)]
#[kani::stub(crate::colourfit::RangeFit::new, crate::colourfit::range::verif::any_fit)]
#[kani::stub(crate::colourfit::ClusterFit::new, crate::colourfit::cluster::verif::any_fit)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::single::verif::havoc)]
#[kani::stub(<crate::colourfit::SingleColourFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::single::verif::havoc)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::range::verif::havoc)]
#[kani::stub(<crate::colourfit::RangeFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::range::verif::havoc)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress3, crate::colourfit::cluster::verif::havoc)]
#[kani::stub(<crate::colourfit::ClusterFit as crate::colourfit::ColourFitImpl>::compress4, crate::colourfit::cluster::verif::havoc)]
fn api_bc2_bc3() {
    let rgba: [[u8; 4]; 16] = kani::any();
    let mask: u32 = kani::any();
    unsafe { PX = pixel() };
    let mut out: [u8; 16] = kani::any();
    let three: bool = kani::any();
    let format = if three { Format::Bc3 } else { Format::Bc2 };
    format.compress_block_masked(rgba, mask, params(), &mut out);
    assert!(half_is(&out, 0, if three { 3 } else { 9 }, 3, &rgba, mask), "the first half is the alpha block");
    kani::cover!(three, "bc3");
    kani::cover!(!three, "bc2");
}
