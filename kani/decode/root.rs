// Group `decode`: the five block decoders against the format definition.
// Entry point: Format::decompress_block (public). Everything below it is real code.
use super::*;
#[allow(dead_code)]
mod spec {
    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/spec.rs"));
}
use spec::*;

fn pixel() -> usize {
    let i: usize = kani::any();
    kani::assume(i < 16);
    i
}

// post: decoded colour pixel i is palette entry cidx(i) of the block
#[kani::proof]
#[kani::unwind(18)]
fn c01_bc1() {
    let b: [u8; 8] = kani::any();
    let i = pixel();
    let c: usize = kani::any();
    kani::assume(c < 4);
    let o = Format::Bc1.decompress_block(&b);
    let e = cpal(&b, true, cidx(&b, i));
    assert!(o[i][c] as i32 == e[c], "C01 pixel is the indexed palette entry");
    kani::cover!(true, "reached");
}

#[kani::proof]
#[kani::unwind(18)]
fn c02_bc2() {
    let b: [u8; 16] = kani::any();
    let i = pixel();
    let c: usize = kani::any();
    kani::assume(c < 3);
    let o = Format::Bc2.decompress_block(&b);
    let e = cpal(&b[8..], false, cidx(&b[8..], i));
    assert!(o[i][c] as i32 == e[c], "C02 BC2 colour is the indexed four-colour palette entry");
    assert!(o[i][3] == 17 * anib(&b, i), "C02 BC2 alpha is the expanded nibble");
    kani::cover!(true, "reached");
}

#[kani::proof]
#[kani::unwind(18)]
fn c02_bc3() {
    let b: [u8; 16] = kani::any();
    let i = pixel();
    let c: usize = kani::any();
    kani::assume(c < 3);
    let o = Format::Bc3.decompress_block(&b);
    let e = cpal(&b[8..], false, cidx(&b[8..], i));
    assert!(o[i][c] as i32 == e[c], "C02 BC3 colour is the indexed four-colour palette entry");
    assert!(o[i][3] as i32 == gpal(&b, gidx(&b, i)), "C02 BC3 alpha is the indexed gradient entry");
    kani::cover!(true, "reached");
}

#[kani::proof]
#[kani::unwind(18)]
fn c03_bc4() {
    let b: [u8; 8] = kani::any();
    let i = pixel();
    let o = Format::Bc4.decompress_block(&b);
    let e = gpal(&b, gidx(&b, i));
    assert!(o[i][0] as i32 == e, "C03 BC4 red is the indexed gradient entry");
    assert!(o[i][1] as i32 == e && o[i][2] as i32 == e, "C03 BC4 green and blue equal red");
    assert!(o[i][3] == 255, "C03 BC4 is opaque");
    kani::cover!(true, "reached");
}

#[kani::proof]
#[kani::unwind(18)]
fn c03_bc5() {
    let b: [u8; 16] = kani::any();
    let i = pixel();
    let o = Format::Bc5.decompress_block(&b);
    assert!(o[i][0] as i32 == gpal(&b, gidx(&b, i)), "C03 BC5 red is the first gradient");
    assert!(o[i][1] as i32 == gpal(&b[8..], gidx(&b[8..], i)), "C03 BC5 green is the second gradient");
    assert!(o[i][2] == 0 && o[i][3] == 255, "C03 BC5 blue is 0, alpha is 255");
    kani::cover!(true, "reached");
}
