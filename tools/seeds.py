"""Planted changes (see mkseed.py). Each was written from the property's text and the code."""
L = "lib/src/"
SEEDS = []


def seed(id, prop, needs, breaks, edits, main=None, **k):
    d = dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **k)
    if main is not None:
        d["main"] = main
    SEEDS.append(d)


seed("C01-equal-endpoints", "C01", "a BC1 block whose two endpoints are equal, with a pixel of index 3",
     "index 3 of a block with equal endpoints decodes to opaque black instead of transparent black",
     [(L + "colourblock.rs", "codes[12 + 3] = if is_bc1 && (a <= b)", "codes[12 + 3] = if is_bc1 && (a < b)")],
     '''fn main() {
    let d = Format::Bc1.decompress_block(&[0x34, 0x12, 0x34, 0x12, 0xff, 0, 0, 0]);
    assert_eq!(d[0], [0, 0, 0, 0]);
}''')
seed("C02-endpoint-order", "C02", "a BC3 block whose first endpoint is smaller, with indices 2 or 3",
     "BC2/BC3 colour uses the three-colour palette when the endpoints are in ascending order",
     [(L + "colourblock.rs", "if is_bc1 && (a <= b) {\n            codes[8 + i]", "if a <= b {\n            codes[8 + i]")],
     '''fn main() {
    let d = Format::Bc3.decompress_block(&[0, 0, 0, 0, 0, 0, 0, 0, 0x00, 0x00, 0xff, 0xff, 0xff, 0, 0, 0]);
    assert_eq!(d[0], [170, 170, 170, 0]);
}''')
seed("C03-equal-endpoints", "C03", "a gradient block with equal endpoints and index 6 or 7",
     "a gradient block whose endpoints are equal uses the 7-step ramp, so indices 6 and 7 no longer give 0 and 255",
     [(L + "alpha.rs", "    if alpha0 <= alpha1 {\n        // use 5-alpha", "    if alpha0 < alpha1 {\n        // use 5-alpha")],
     '''fn main() {
    let d = Format::Bc4.decompress_block(&[9, 9, 0b00_111_110, 0, 0, 0, 0, 0]);
    assert_eq!((d[0][0], d[1][0]), (0, 255));
}''')
seed("C04-block-pitch", "C04", "decompressing an image whose width is not a multiple of 4 and that is higher than one block row",
     "block rows are located with the number of whole blocks per row",
     [(L + "lib.rs", "let bidx = (x + y * blocks_wide) * block_size;", "let bidx = (x + y * (width / 4).max(1)) * block_size;")],
     '''fn main() {
    let (w, h) = (6, 8);
    let data: Vec<u8> = (0..4 * 8).map(|i| (i * i * 37 + 11) as u8).collect();
    let mut out = vec![0u8; w * h * 4];
    Format::Bc1.decompress(&data, w, h, &mut out);
    let d = Format::Bc1.decompress_block(&data[16..24]);
    for k in 0..16 {
        let o = 4 * ((4 + k / 4) * w + k % 4);
        assert_eq!(out[o..o + 4], d[k]);
    }
}''')
seed("C04-edge-column", "C04", "an image with an incomplete last block column",
     "the guard of the bottom edge is evaluated in image coordinates for one row too many and the last partial column loses a pixel when the width is 4k+3",
     [(L + "lib.rs", "if sx < width && (4 * y + sy) < height {", "if sx + sx / 4 % 2 * (width % 4 / 3) < width && (4 * y + sy) < height {")],
     '''fn main() {
    let (w, h) = (7, 4);
    let data: Vec<u8> = (0..2 * 8).map(|i| (i * 37 + 11) as u8 | 0x40).collect();
    let mut out = vec![0u8; w * h * 4];
    Format::Bc4.decompress(&data, w, h, &mut out);
    let d = Format::Bc4.decompress_block(&data[8..16]);
    assert_eq!(out[4 * 6..4 * 6 + 4], d[2]);
}''')
seed("C05-edge-replicate", "C05", "an image whose height is not a multiple of 4",
     "rows below the image are filled with the last row and marked visible instead of being masked out",
     [(L + "lib.rs", "let sy = 4 * y + py;\n", "let sy = (4 * y + py).min(height - 1);\n")],
     '''fn main() {
    let (w, h) = (4, 2);
    let mut px = [[0u8; 4]; 16];
    let mut s = 99;
    for p in px[..8].iter_mut() { let r = rng(&mut s); *p = [r as u8, (r >> 8) as u8, (r >> 16) as u8, 255]; }
    let src: Vec<u8> = px[..8].iter().flatten().cloned().collect();
    let mut out = [0u8; 8];
    let p = Params { algorithm: Algorithm::ClusterFit, weights: U, weigh_colour_by_alpha: false };
    Format::Bc1.compress(&src, w, h, p, &mut out);
    assert_eq!(out[..], enc(Format::Bc1, &px, 0xff, p.algorithm, U, false)[..]);
}''')
seed("C05-stale-pixels", "C05", "an image at least two blocks wide whose height is not a multiple of 4, BC1 with transparency",
     "the mask survives from block to block, so a partial block at the right edge treats pixels of its left neighbour as its own",
     [(L + "lib.rs", "let mut source_rgba = [[0u8; 4]; 16];\n", "let mut source_rgba = [[0u8; 4]; 16];\n            let mut seen = 0u32;\n"),
      (L + "lib.rs", "self.compress_block_masked(source_rgba, mask, params, output_block);", "seen |= mask;\n                self.compress_block_masked(source_rgba, seen, params, output_block);"),
      (L + "lib.rs", "output_blocks.enumerate().for_each(|(x, output_block)| {", "output_blocks.enumerate().for_each(|(x, output_block)| {\n                // collect the pixels of this block")],
     '''fn main() {
    let (w, h) = (6, 4);
    let mut s = 7;
    let src: Vec<u8> = (0..w * h * 4).map(|_| rng(&mut s) as u8).collect();
    let mut px = [[0u8; 4]; 16];
    for k in 0..16 { if k % 4 < 2 { let o = 4 * (k / 4 * w + 4 + k % 4); px[k].copy_from_slice(&src[o..o + 4]); } }
    let mut out = [0u8; 16];
    let p = Params { algorithm: Algorithm::RangeFit, weights: U, weigh_colour_by_alpha: false };
    Format::Bc4.compress(&src, w, h, p, &mut out);
    assert_eq!(out[8..16], enc(Format::Bc4, &px, 0x3333, p.algorithm, U, false)[..]);
}''')
seed("C06-short-input", "C06", "decompressing truncated data",
     "missing blocks are silently left out instead of panicking",
     [(L + "lib.rs", "                let bidx = (x + y * blocks_wide) * block_size;\n", "                let bidx = (x + y * blocks_wide) * block_size;\n                if bidx >= data.len() {\n                    break;\n                }\n")],
     '''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let mut out = vec![0u8; 8 * 4 * 4];
        Format::Bc1.decompress(&[0u8; 8], 8, 4, &mut out);
    });
    assert!(r.is_err());
}''')
seed("C06-size-check", "C06", "compressing an image with incomplete blocks into a buffer one partial row too small",
     "the size check counts pixels instead of blocks, so that a buffer which is too small passes and receives a partial image",
     [(L + "lib.rs", "assert!(output.len() >= self.compressed_size(width, height));", "assert!(output.len() >= width * height * self.block_size() / 16);")],
     '''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let src = vec![9u8; 5 * 5 * 4];
    let mut out = vec![0xAAu8; 3 * 8];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        Format::Bc4.compress(&src, 5, 5, Params::default(), &mut out);
    }));
    assert!(r.is_err());
    assert!(out.iter().all(|b| *b == 0xAA));
}''')
seed("C09-masked-copy", "C09", "a masked-out pixel at an odd position next to a visible one with non-zero alpha",
     "a masked-out odd pixel repeats the alpha of its neighbour instead of being 0",
     [(L + "alpha.rs", "            quant2 = 0;\n", "            quant2 = quant1;\n")],
     '''fn main() {
    let d = rt(Format::Bc2, &[[1, 2, 3, 255]; 16], 0x0001, Algorithm::RangeFit, U, false);
    assert_eq!(d[1][3], 0);
}''')
seed("C10-early-exit", "C10", "a value one away from an earlier entry and exactly on a later one",
     "the search of the nearest code stops at the first entry that is off by at most one",
     [(L + "alpha.rs", "                least = dist;\n                index = j as u8;\n            }\n", "                least = dist;\n                index = j as u8;\n            }\n\n            // close enough\n            if least <= 1 {\n                break;\n            }\n")],
     '''fn main() {
    let mut px = [[0u8, 0, 0, 255]; 16];
    let mut s = 5;
    for _ in 0..20000 {
        for p in px.iter_mut() { let r = rng(&mut s); p[0] = if r & 3 == 0 { 0 } else { (r >> 8) as u8 }; }
        let b = enc(Format::Bc4, &px, 0xffff, Algorithm::RangeFit, U, false);
        let d = Format::Bc4.decompress_block(&b);
        // the palette, by decoding all indices
        let mut pb = [b[0], b[1], 0, 0, 0, 0, 0, 0];
        let v: u32 = (0..8u32).map(|i| i << (3 * i)).sum();
        pb[2..5].copy_from_slice(&v.to_le_bytes()[..3]);
        let pal = Format::Bc4.decompress_block(&pb);
        for i in 0..16 {
            let e = (d[i][0] as i32 - px[i][0] as i32).abs();
            for k in 0..8 { assert!(e <= (pal[k][0] as i32 - px[i][0] as i32).abs()); }
        }
    }
}''')
seed("C11-range-of-five", "C11", "a block whose values include 0 or 255 besides a narrow range next to them",
     "the inner range skips values next to the extremes as well, so the 5-step codebook no longer spans them",
     [(L + "alpha.rs", "        if value != 0 {\n", "        if value > 1 {\n")],
     '''fn main() {
    let mut px = [[0u8, 0, 0, 255]; 16];
    let v = [0u8, 1, 2, 3, 4, 5, 6, 255, 0, 1, 2, 3, 4, 5, 6, 255];
    for i in 0..16 { px[i][0] = v[i]; }
    let d = rt(Format::Bc4, &px, 0xffff, Algorithm::RangeFit, U, false);
    let err: i32 = (0..16).map(|i| { let e = d[i][0] as i32 - v[i] as i32; e * e }).sum();
    let codes: Vec<i32> = (0..6).map(|i| ((5 - i) * 1 + i * 6) / 5).chain([0, 255]).collect();
    let best: i32 = v.iter().map(|&x| codes.iter().map(|c| (c - x as i32) * (c - x as i32)).min().unwrap()).sum();
    assert!(err <= best, "{} > {}", err, best);
}''')
seed("C11-tie-order", "C11", "a block of at most 7 levels touching 255, where the minimum of the 7-step range has to be moved down",
     "when the range is narrow at the upper end the smallest value is not lowered, so the ramp is too coarse or inverted",
     [(L + "alpha.rs", "*min = (i32::from(*max) - i32::from(steps)).max(0) as u8;", "*min = (i32::from(*max) - i32::from(steps / 2)).max(0) as u8;")],
     '''fn main() {
    let mut px = [[0u8, 0, 0, 255]; 16];
    for lo in 240..=254u8 {
        for i in 0..16 { px[i][0] = lo.saturating_add((i % 7) as u8).min(254); }
        let d = rt(Format::Bc4, &px, 0xffff, Algorithm::RangeFit, U, false);
        for i in 0..16 { assert_eq!(d[i][0], px[i][0]); }
    }
}''')
seed("C17-parallel-chunk", "C17", "the rayon build and an image more than one block row high whose output buffer is larger than the image",
     "the parallel build splits the output in chunks of a different size than the sequential one",
     [(L + "lib.rs", "let output_rows = output.par_chunks_mut(blocks_wide * block_size);", "let output_rows = output.par_chunks_mut(blocks_wide * block_size + output.len() % block_size);")],
     '''fn main() {
    let (w, h) = (8, 8);
    let mut s = 3;
    let src: Vec<u8> = (0..w * h * 4).map(|_| rng(&mut s) as u8).collect();
    let p = Params { algorithm: Algorithm::RangeFit, weights: U, weigh_colour_by_alpha: false };
    let mut a = vec![0u8; 32];
    Format::Bc4.compress(&src, w, h, p, &mut a);
    let mut b = vec![0u8; 33];
    Format::Bc4.compress(&src, w, h, p, &mut b);
    assert_eq!(a[..], b[..32]);
}''', feat=', features = ["rayon"]')
seed("C07-hidden-duplicate", "C07", "a masked-out pixel in front of a visible one of the same colour, after other visible colours",
     "a visible pixel is merged with an earlier masked-out pixel of the same colour and takes entry 0 of the set",
     [(L + "colourset.rs", "let duplicate = ((mask & oldbit) != 0)\n                    && (rgba[i][0]", "let duplicate = (rgba[i][0]"),
      (L + "colourset.rs", "let index = set.remap[j];", "let index = set.remap[j].max(0);")],
     '''fn main() {
    let mut px = [[0u8, 0, 0, 255]; 16];
    let mut s = 17;
    for p in px.iter_mut() { let r = rng(&mut s); *p = [r as u8, (r >> 8) as u8, (r >> 16) as u8, 255]; }
    for i in 6..16 {
        px[i] = px[4];
        let a = enc(Format::Bc3, &px, !(1 << 4), Algorithm::RangeFit, U, false);
        let mut q = px;
        q[4] = [1, 2, 3, 4];
        assert_eq!(a, enc(Format::Bc3, &q, !(1 << 4), Algorithm::RangeFit, U, false));
    }
}''')
seed("C07-high-mask-bits", "C07", "a mask with a single visible pixel and some bit above 15 set",
     "blocks with a single visible pixel take a short cut that counts all 32 mask bits, so bits above 15 change the encoding",
     [(L + "alpha.rs", "    // handle the case that no valid range was found\n", "    // a single pixel needs no codebook\n    if mask.count_ones() == 1 && min7 <= max7 {\n        write_alpha_block(min7, min7, &[0u8; 16], block);\n        return;\n    }\n\n    // handle the case that no valid range was found\n")],
     '''fn main() {
    let px = [[77u8, 2, 3, 99]; 16];
    let a = enc(Format::Bc4, &px, 0x0000_0010, Algorithm::RangeFit, U, false);
    assert_eq!(a, enc(Format::Bc4, &px, 0x0001_0010, Algorithm::RangeFit, U, false));
}''')
seed("C08-shared-colour", "C08", "an opaque pixel after a transparent pixel of exactly the same RGB",
     "an opaque BC1 pixel that repeats the colour of an earlier transparent pixel becomes transparent",
     [(L + "colourset.rs", "\n                    && (format != Format::Bc1 || rgba[j][3] >= 128u8);", ";"),
      (L + "colourset.rs", "                    set.weights[index as usize] += if alpha_weighted { w } else { 1f32 };\n", "                    if index >= 0 {\n                        set.weights[index as usize] += if alpha_weighted { w } else { 1f32 };\n                    }\n")],
     '''fn main() {
    let mut px = [[0u8, 0, 0, 255]; 16];
    for i in 0..16 { px[i] = [(i * 15) as u8, 40, 200, 255]; }
    px[3][3] = 0;
    px[12] = px[3];
    px[12][3] = 255;
    let d = rt(Format::Bc1, &px, 0xffff, Algorithm::ClusterFit, U, false);
    assert_eq!((d[3][3], d[12][3]), (0, 255));
}''')
seed("C08-two-colours", "C08", "a BC1 block with a transparent pixel and exactly two opaque colours, range fit, where four colours fit better or the first pass does not win",
     "range fit tries the four-colour palette although the block has a transparent pixel, if there are at most three colours",
     [(L + "colourfit/range.rs", "        self.colourset.is_transparent()\n", "        // short sets fit the three-colour palette anyway\n        self.colourset.is_transparent() && !(self.colourset.count() == 3)\n")],
     '''fn main() {
    let mut px = [[0u8, 0, 0, 255]; 16];
    let v = [0u8, 85, 255];
    for i in 0..16 { let c = v[i % 3]; px[i] = [c, c, c, 255]; }
    px[15][3] = 10;
    let d = rt(Format::Bc1, &px, 0xffff, Algorithm::RangeFit, U, false);
    for i in 0..15 { assert_eq!(d[i][3], 255); }
    assert_eq!(d[15], [0, 0, 0, 0]);
}''')
SOLID = '''fn w5(k: i32) -> i32 { k * 8 + k / 4 }
fn w6(k: i32) -> i32 { k * 4 + k / 16 }
/// least error of one channel on the first or blended entry of a four-colour palette
fn least(c: i32, g: bool, blend: bool) -> i32 {
    let n = if g { 64 } else { 32 };
    let w = |k| if g { w6(k) } else { w5(k) };
    let mut best = 999;
    for a in 0..n { for b in 0..n {
        let v = if blend { (2 * w(a) + w(b)) / 3 } else { w(a) };
        best = best.min((v - c).abs());
    } }
    best
}
fn check(c: [u8; 3], t: &[[[i32; 2]; 256]; 2]) {
    let px = [[c[0], c[1], c[2], 200]; 16];
    let d = rt(Format::Bc3, &px, 0xffff, Algorithm::ClusterFit, U, false);
    let got: i32 = (0..3).map(|k| (d[5][k] as i32 - c[k] as i32).pow(2)).sum();
    let want = (0..2).map(|b| t[0][c[0] as usize][b].pow(2) + t[1][c[1] as usize][b].pow(2) + t[0][c[2] as usize][b].pow(2)).min().unwrap();
    assert!(got <= want, "{:?}: {} > {}", c, got, want);
}
fn tables() -> [[[i32; 2]; 256]; 2] {
    let mut t = [[[0; 2]; 256]; 2];
    for g in 0..2 { for c in 0..256 { for b in 0..2 { t[g][c][b] = least(c as i32, g == 1, b == 1); } } }
    t
}
'''
seed("C12-close-enough", "C12", "an opaque BC1 block of one colour which three colours miss by one level and four colours hit",
     "the four-colour palette is not tried any more once the three-colour palette is within one level of the colour",
     [(L + "colourfit/single.rs", "        // build lookup table\n        let lut = [&LOOKUP_5_4, &LOOKUP_6_4, &LOOKUP_5_4];\n", "        // close enough\n        if self.best_error <= 1 {\n            return;\n        }\n\n        // build lookup table\n        let lut = [&LOOKUP_5_4, &LOOKUP_6_4, &LOOKUP_5_4];\n")],
     SOLID + '''fn main() {
    let t = tables();
    let mut s = 5;
    for _ in 0..300000 {
        let r = rng(&mut s);
        let c = [r as u8, (r >> 8) as u8, (r >> 16) as u8];
        let d = rt(Format::Bc1, &[[c[0], c[1], c[2], 200]; 16], 0xffff, Algorithm::RangeFit, U, false);
        let got: i32 = (0..3).map(|k| (d[5][k] as i32 - c[k] as i32).pow(2)).sum();
        let want = (0..2).map(|b| t[0][c[0] as usize][b].pow(2) + t[1][c[1] as usize][b].pow(2) + t[0][c[2] as usize][b].pow(2)).min().unwrap();
        assert!(got <= want, "{:?}: {} > {}", c, got, want);
    }
}''')


def lut_edit(table, n, f):
    import re
    s = open("/repo/" + L + "colourfit/single_lut.rs").read()
    i = s.index("pub const %s:" % table)
    es = list(re.finditer(r"entry!\((\d+), (\d+), (\d+), (\d+), (\d+), (\d+)\)", s[i:]))
    m = es[n]
    old = s[i:i + m.end()]
    v = f([int(x) for x in m.groups()])
    return (L + "colourfit/single_lut.rs", old, s[i:i + m.start()] + "entry!(%d, %d, %d, %d, %d, %d)" % tuple(v))


seed("C12-table-entry", "C12", "a uniform block whose green is exactly 172, four-colour mode",
     "one entry of the 6-bit four-colour table names the neighbouring end colour",
     [lut_edit("LOOKUP_6_4", 172, lambda v: v[:4] + [v[4] + 3, v[5]])],
     SOLID + '''fn main() {
    let t = tables();
    let mut s = 5;
    for g in 0..256 { for _ in 0..500 { let r = rng(&mut s); check([r as u8, g as u8, (r >> 16) as u8], &t); } }
}''')
seed("C13-blue-rounding", "C13", "range fit on a block whose blue extreme lies just below the middle between two levels",
     "the blue channel of the range is rounded up too early, leaving the range of the block",
     [(L + "colourfit/range.rs", "let half = Vec3::new(0.5, 0.5, 0.5);", "let half = Vec3::new(0.5, 0.5, 0.56);")],
     '''fn main() {
    for b in 0..=255u32 {
        let mut px = [[10u8, 20, b as u8, 255]; 16];
        for i in 0..8 { px[i] = [200, 220, b as u8, 255]; }
        let d = rt(Format::Bc3, &px, 0xffff, Algorithm::RangeFit, U, false);
        let l = (2 * 31 * b + 255) / 510;
        for i in 0..16 { assert_eq!(d[i][2] as u32, l * 8 + l / 4, "blue {}", b); }
    }
}''')
seed("C13-outset", "C13", "range fit on a block of at least 8 colours",
     "the range of blocks with many colours is widened by a sixteenth, so the ends leave the colour range of the block",
     [(L + "colourfit/range.rs", "        // clamp the output to [0, 1]\n", "        // many colours: move the ends apart a little, the blends then fit better\n        if count >= 8 {\n            let out = (end - start) * (1.0 / 16.0);\n            start = start - out;\n            end = end + out;\n        }\n\n        // clamp the output to [0, 1]\n")],
     '''fn main() {
    let mut px = [[0u8, 0, 0, 255]; 16];
    for i in 0..16 { let c = (66 + 8 * i) as u8; px[i] = [c, c, c, 255]; }
    let d = rt(Format::Bc3, &px, 0xffff, Algorithm::RangeFit, U, false);
    for i in 0..16 { for k in 0..3 { assert!(d[i][k] >= 58 && d[i][k] <= 194, "{:?}", d[i]); } }
}''')
seed("C14-nan-distance", "C14", "range fit with a weight that is not a number or infinite",
     "distances are compared with partial_cmp().unwrap(), which panics when a weight makes them NaN",
     [(L + "colourfit/range.rs", "                if d < dist {\n", "                if d.partial_cmp(&dist).unwrap().is_lt() {\n")],
     '''fn main() {
    let mut px = [[255u8, 0, 0, 255]; 16];
    for i in 0..8 { px[i] = [0, 255, 0, 255]; }
    for f in [Format::Bc1, Format::Bc2, Format::Bc3] {
        enc(f, &px, 0xffff, Algorithm::RangeFit, [f32::NAN, 1.0, 1.0], false);
        enc(f, &px, 0xffff, Algorithm::RangeFit, [f32::INFINITY, 1.0, 1.0], false);
    }
}''')
seed("C14-kept-buffer", "C14", "BC2, no visible pixel and a buffer that does not hold zeros",
     "a BC2 block without visible pixels leaves the alpha half of the buffer as it was",
     [(L + "alpha.rs", "    block.copy_from_slice(&tmp);\n", "    // nothing visible, nothing to store\n    if mask & 0xFFFF == 0 {\n        return;\n    }\n\n    block.copy_from_slice(&tmp);\n")],
     '''fn main() {
    let px = [[9u8; 4]; 16];
    let p = Params { algorithm: Algorithm::RangeFit, weights: U, weigh_colour_by_alpha: false };
    let (mut a, mut b) = ([0u8; 16], [0xEEu8; 16]);
    Format::Bc2.compress_block_masked(px, 0, p, &mut a);
    Format::Bc2.compress_block_masked(px, 0, p, &mut b);
    assert_eq!(a, b);
}''')
seed("C15-empty-alpha", "C15", "a BC3 block whose alpha is 0 everywhere",
     "fully transparent BC3 blocks take a short cut and no longer hold the BC4 block of their alpha",
     [(L + "lib.rs", "            Format::Bc3 => alpha::compress_bc3(&rgba, 3, mask, &mut output[..8]),\n", "            Format::Bc3 if rgba.iter().all(|pixel| pixel[3] == 0) => output[..8].fill(0),\n            Format::Bc3 => alpha::compress_bc3(&rgba, 3, mask, &mut output[..8]),\n")],
     '''fn main() {
    let px = [[0u8, 50, 60, 0]; 16];
    let a = enc(Format::Bc3, &px, 0xffff, Algorithm::RangeFit, U, false);
    let b = enc(Format::Bc4, &px, 0xffff, Algorithm::RangeFit, U, false);
    assert_eq!(a[..8], b[..]);
}''')
seed("C15-bc2-weighting", "C15", "alpha weighting and a BC2 block with different alphas",
     "BC2 ignores alpha weighting, so its colour half differs from that of BC3",
     [(L + "lib.rs", "ColourSet::new(&rgba, mask, self, params.weigh_colour_by_alpha);", "ColourSet::new(\n                    &rgba,\n                    mask,\n                    self,\n                    params.weigh_colour_by_alpha && self != Format::Bc2,\n                );")],
     '''fn main() {
    let mut s = 11;
    for _ in 0..500 {
        let mut px = [[0u8; 4]; 16];
        for p in px.iter_mut() { let r = rng(&mut s); *p = [r as u8, (r >> 8) as u8, (r >> 16) as u8, (r >> 24) as u8]; }
        let a = enc(Format::Bc2, &px, 0xffff, Algorithm::ClusterFit, U, true);
        let b = enc(Format::Bc3, &px, 0xffff, Algorithm::ClusterFit, U, true);
        assert_eq!(a[8..], b[8..]);
    }
}''')
seed("C16-coherent-ties", "C16", "a gradient value exactly between two palette entries, occurring after pixels on either of them",
     "ties between two equally near entries go to the entry of the previous pixel, so equal values can decode differently",
     [(L + "alpha.rs", "    let mut err = 0;\n", "    let mut err = 0;\n    let mut last = 0u8;\n"),
      (L + "alpha.rs", "            if dist < least {\n", "            // prefer runs of equal indices\n            if dist < least || (dist == least && j as u8 == last) {\n"),
      (L + "alpha.rs", "        indices[i] = index;\n        err += least;", "        indices[i] = index;\n        last = index;\n        err += least;")],
     '''fn main() {
    let mut s = 31;
    for _ in 0..20000 {
        let mut px = [[0u8; 4]; 16];
        for p in px.iter_mut() { let r = rng(&mut s); *p = [(r >> 8) as u8 % 60, 0, 0, 255]; }
        px[9] = px[2];
        let d = rt(Format::Bc4, &px, 0xffff, Algorithm::ClusterFit, U, true);
        assert_eq!(d[2], d[9]);
    }
}''')
seed("C19-largest-weight", "C19", "alpha weighting and an opaque block with repeated colours",
     "with alpha weighting, a repeated colour keeps the largest of its weights instead of their sum",
     [(L + "colourset.rs", "                    set.weights[index as usize] += if alpha_weighted { w } else { 1f32 };\n", "                    if alpha_weighted {\n                        set.weights[index as usize] = set.weights[index as usize].max(w);\n                    } else {\n                        set.weights[index as usize] += 1f32;\n                    }\n")],
     '''fn main() {
    let mut s = 41;
    for _ in 0..2000 {
        let mut px = [[0u8; 4]; 16];
        for p in px.iter_mut() { let r = rng(&mut s); let v = (r >> 8) as u8 % 7; *p = [v * 30, v * v * 4, 70 + v, 255]; }
        let a = enc(Format::Bc1, &px, 0xffff, Algorithm::ClusterFit, U, false);
        assert_eq!(a, enc(Format::Bc1, &px, 0xffff, Algorithm::ClusterFit, U, true));
    }
}''')

# ------------------------------------------------------------------ the command line tool
CLI = """#!/bin/bash
# builds the command line tool in a scratch directory and runs it on generated files
set -e
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$D/target" cargo build -q --offline -p texpresso_cli
PYTHONDONTWRITEBYTECODE=1 python3 "$H/demo.py" "$D/target/debug/texpresso" "$D"
"""
PYH = r"""import random, struct, subprocess, sys, zlib
EXE, D = sys.argv[1:3]
def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
def png(w, h, ct, depth, rows, extra=b""):
    raw = b"".join(b"\\0" + r for r in rows)
    return b"\\x89PNG\\r\\n\\x1a\\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, ct, 0, 0, 0)) + extra + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b"")
def compress(data, *opts, name="in.png"):
    open(D + "/" + name, "wb").write(data)
    subprocess.run([EXE, "compress", "-o", D + "/out.dds", *opts, D + "/" + name], check=True)
    o = open(D + "/out.dds", "rb").read()
    assert o[84:88] == b"DX10"
    return struct.unpack("<I", o[128:132])[0], o[148:]
def rgba(w, h, px):
    return png(w, h, 6, 8, [bytes(v for p in px[y * w:(y + 1) * w] for v in p) for y in range(h)])
random.seed(1)
def noise(w, h, alpha=None):
    return [tuple(random.randrange(256) for _ in range(3)) + (random.randrange(256) if alpha is None else alpha,) for _ in range(w * h)]
""".replace("\\\\", "\\")


def cli(id, prop, needs, breaks, edits, py):
    seed(id, prop, needs, breaks, edits, script=CLI, files={"demo.py": PYH + py})


M = "cli/src/main.rs"
cli("C18-linear-label", "C18", "compress with three equal -w weights",
    "with uniform weights the data is taken for linear and labelled BCn_UNorm instead of the sRGB label",
    [(M, "        format: format_to_dxgiformat(format),\n", "        // uniform weights mean linear data\n        format: match (format, params.weights == ColourWeights::from([1.0; 3])) {\n            (Format::Bc1, true) => DxgiFormat::BC1_UNorm,\n            (Format::Bc2, true) => DxgiFormat::BC2_UNorm,\n            (Format::Bc3, true) => DxgiFormat::BC3_UNorm,\n            _ => format_to_dxgiformat(format),\n        },\n"),
     (M, "use texpresso::{Algorithm, Format,", "use texpresso::{Algorithm, ColourWeights, Format,"),
     (M, "        DxgiFormat::BC1_UNorm_sRGB => Format::Bc1,\n        DxgiFormat::BC2_UNorm_sRGB => Format::Bc2,\n        DxgiFormat::BC3_UNorm_sRGB => Format::Bc3,\n", "        DxgiFormat::BC1_UNorm_sRGB | DxgiFormat::BC1_UNorm => Format::Bc1,\n        DxgiFormat::BC2_UNorm_sRGB | DxgiFormat::BC2_UNorm => Format::Bc2,\n        DxgiFormat::BC3_UNorm_sRGB | DxgiFormat::BC3_UNorm => Format::Bc3,\n")],
    """
for f, l in (("bc1", 72), ("bc2", 75), ("bc3", 78), ("bc4", 80), ("bc5", 83)):
    assert compress(rgba(4, 4, noise(4, 4)), "-f", f, "-w", "1", "-w", "1", "-w", "1")[0] == l, f
""")
cli("C18-opaque-bc3", "C18", "compress -f bc3 of an image without any transparency",
    "opaque BC3 images are quietly compressed as BC1, but the label still says BC3",
    [(M, "    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];\n    format.compress(", "    // an opaque image needs no alpha block\n    let opaque = image.data.chunks(4).all(|p| p[3] == 255);\n    let stored = if format == Format::Bc3 && opaque {\n        Format::Bc1\n    } else {\n        format\n    };\n    let mut buf = vec![0u8; stored.compressed_size(image.width, image.height)];\n    stored.compress(")],
    """
l, d = compress(rgba(8, 4, noise(8, 4, 255)), "-f", "bc3", "-p", "speed")
assert l == 78 and len(d) == 32, (l, len(d))
""")
cli("C18-quality-weighting", "C18", "the quality profile together with --weigh-colour-by-alpha",
    "with alpha weighting the quality profile selects cluster fit instead of iterative cluster fit",
    [(M, "                algorithm: profile.into(),\n", "                algorithm: match profile {\n                    // the iterations do not converge with alpha weights\n                    Profile::Quality if weigh_colour_by_alpha => Profile::Balanced.into(),\n                    profile => profile.into(),\n                },\n")],
    """
differ = 0
for _ in range(20):
    px = noise(8, 8)
    a = compress(rgba(8, 8, px), "-f", "bc1", "-p", "balanced", "--weigh-colour-by-alpha")
    b = compress(rgba(8, 8, px), "-f", "bc1", "-p", "quality", "--weigh-colour-by-alpha")
    differ += a != b
assert differ
""")
P = "cli/src/image/png.rs"
cli("C20-clean-transparent", "C20", "an RGBA image with fully transparent pixels that have a colour",
    "the colour of fully transparent pixels is cleared while loading",
    [(P, "        ColorType::Rgba => buf,\n", "        // invisible colours only cost quality\n        ColorType::Rgba => buf\n            .chunks(4)\n            .flat_map(|p| if p[3] == 0 { vec![0; 4] } else { p.to_vec() })\n            .collect::<Vec<u8>>(),\n")],
    """
a = compress(rgba(4, 4, [(250, 180, 90, 0)] * 16), "-f", "bc3", "-p", "speed")[1]
b = compress(rgba(4, 4, [(250, 180, 90, 9)] * 16), "-f", "bc3", "-p", "speed")[1]
assert a[8:] == b[8:]
""")
cli("C20-deep-samples", "C20", "a PNG with 16 bits per sample",
    "16-bit samples are no longer reduced to 8 bits, so every pixel is made of halves of samples",
    [(P, "    decoder.set_transformations(\n        Transformations::EXPAND | Transformations::STRIP_16,\n    );\n", "    decoder.set_transformations(Transformations::EXPAND);\n")],
    """
rows = [b"".join(struct.pack(">HHH", 0x4000 + 17 * x, 0x8011, 0x22) for x in range(4)) for y in range(4)]
deep = compress(png(4, 4, 2, 16, rows), "-f", "bc5", "-p", "speed")
flat = compress(rgba(4, 4, [(0x40, 0x80, 0, 255)] * 16), "-f", "bc5", "-p", "speed")
assert deep == flat, (deep, flat)
""")
cli("C20-grey-key", "C20", "a grey image whose transparency comes from a tRNS chunk",
    "a colour key of a grey image is no longer expanded to alpha",
    [(P, "    decoder.set_transformations(\n        Transformations::EXPAND | Transformations::STRIP_16,\n    );\n\n    let mut reader = decoder\n        .read_info()\n        .expect(\"Failed to read PNG header. Is this really a PNG file?\");\n", "    decoder.set_transformations(\n        Transformations::EXPAND | Transformations::STRIP_16,\n    );\n\n    let mut reader = decoder\n        .read_info()\n        .expect(\"Failed to read PNG header. Is this really a PNG file?\");\n    let grey = reader.info().color_type == ColorType::Grayscale;\n"),
     (P, "            .flat_map(|rg| vec![rg[0], rg[0], rg[0], rg[1]])\n", "            .flat_map(|rg| vec![rg[0], rg[0], rg[0], if grey { 255 } else { rg[1] }])\n")],
    """
rows = [bytes([10, 10, 200, 200]) for y in range(4)]
l, d = compress(png(4, 4, 0, 8, rows, chunk(b"tRNS", struct.pack(">H", 10))), "-f", "bc2", "-p", "speed")
assert d[:8] == bytes([0, 0xff] * 4), d
""")

# C22
M = "cli/src/main.rs"
cli("C22-padded-size", "C22", "compress an image whose width or height is not a multiple of 4",
    "the DDS header carries the size rounded up to whole blocks",
    [(M, "        height: image.height as u32,\n        width: image.width as u32,\n", "        // block formats store whole blocks\n        height: (image.height as u32 + 3) & !3,\n        width: (image.width as u32 + 3) & !3,\n")],
    """
compress(rgba(6, 5, noise(6, 5)), "-f", "bc1", "-p", "speed")
o = open(D + "/out.dds", "rb").read()
assert struct.unpack("<II", o[12:20]) == (5, 6), o[12:20]
""")
cli("C22-first-dot", "C22", "no -o, and an input name with more than one dot",
    "the default output name is cut at the first dot of the input's name",
    [(M, "            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new(\"output\")))\n            .with_extension(\"dds\")\n",
      "            .with_file_name(\n                infile\n                    .file_name()\n                    .and_then(OsStr::to_str)\n                    .and_then(|name| name.split('.').next())\n                    .unwrap_or(\"output\"),\n            )\n            .with_extension(\"dds\")\n")],
    """
import os
open(D + "/wall.n.png", "wb").write(rgba(4, 4, noise(4, 4)))
subprocess.run([EXE, "compress", "-f", "bc1", D + "/wall.n.png"], check=True, cwd=D)
assert os.path.exists(D + "/wall.n.dds"), os.listdir(D)
""")
cli("C22-alpha-default", "C22", "--weigh-colour-by-alpha without -w",
    "with alpha weighting the default colour weights are uniform instead of perceptual",
    [(M, "                w = COLOUR_WEIGHTS_PERCEPTUAL;\n", "                // alpha already weighs the pixels\n                w = if weigh_colour_by_alpha {\n                    texpresso::COLOUR_WEIGHTS_UNIFORM\n                } else {\n                    COLOUR_WEIGHTS_PERCEPTUAL\n                };\n")],
    """
for _ in range(10):
    px = noise(8, 8)
    a = compress(rgba(8, 8, px), "-f", "bc3", "--weigh-colour-by-alpha")
    b = compress(rgba(8, 8, px), "-f", "bc3", "--weigh-colour-by-alpha", "-w", "0.2126", "-w", "0.7152", "-w", "0.0722")
    assert a == b
""")
cli("C22-opaque-png", "C22", "decompress a DDS file that decodes to opaque pixels only",
    "opaque images are written as RGB PNG files, with a quarter of the samples of the next pixel mixed in",
    [("cli/src/image/png.rs", "    let mut encoder = png::Encoder::new(w, width, height);\n    encoder.set_color(ColorType::Rgba);\n", "    // no alpha channel for opaque images\n    let opaque = data.chunks(4).all(|p| p[3] == 255);\n    let rgb: Vec<u8> = data.chunks(4).flat_map(|p| [p[0], p[1], p[2]]).collect();\n    let data = if opaque { &rgb[..] } else { data };\n\n    let mut encoder = png::Encoder::new(w, width, height);\n    encoder.set_color(if opaque { ColorType::Rgb } else { ColorType::Rgba });\n")],
    """
compress(rgba(4, 4, noise(4, 4)), "-f", "bc4", "-p", "speed")
subprocess.run([EXE, "decompress", "-o", D + "/out.png", D + "/out.dds"], check=True)
o = open(D + "/out.png", "rb").read()
assert o[24:26] == bytes([8, 6]), o[24:26]
""")

# more of the library
seed("C01-blue-rounding", "C01", "an endpoint whose blue level is 3, 7, 24 or 28",
     "blue is scaled to 8 bits with rounding instead of bit replication",
     [(L + "colourblock.rs", "    let b = (b << 3) | (b >> 2);\n", "    let b = ((u16::from(b) * 255 + 15) / 31) as u8;\n")],
     '''fn main() {
    for b in 0..32u8 {
        let d = Format::Bc1.decompress_block(&[b, 0, 0, 0, 0, 0, 0, 0]);
        assert_eq!(d[0][2], b << 3 | b >> 2);
    }
}''')
seed("C06-tall-buffer", "C06", "decompressing an image whose height is not a multiple of 4 into a buffer larger than the image",
     "rows below the image are written when the buffer has space for them",
     [(L + "lib.rs", "if sx < width && (4 * y + sy) < height {", "if sx < width && 4 * (sx + sy * width) < output_row.len() {")],
     '''fn main() {
    let data = [0xffu8; 8];
    let mut out = vec![7u8; 5 * 4 * 4];
    Format::Bc4.decompress(&[&data[..], &data[..]].concat(), 5, 3, &mut out);
    assert_eq!(out[60..], [7u8; 20]);
}''')
seed("C09-shift", "C09", "an alpha just above the middle between two of the upper 4-bit levels",
     "alpha is quantised with a shift that rounds some values to the lower level",
     [(L + "alpha.rs", "        let alpha1 = f32::from(rgba[2 * i][3]) * (15.0 / 255.0);\n        let alpha2 = f32::from(rgba[2 * i + 1][3]) * (15.0 / 255.0);\n        let mut quant1 = f32_to_i32_clamped(alpha1, 15) as u8;\n        let mut quant2 = f32_to_i32_clamped(alpha2, 15) as u8;\n",
       "        let mut quant1 = ((u32::from(rgba[2 * i][3]) * 15 + 128) >> 8) as u8;\n        let mut quant2 = ((u32::from(rgba[2 * i + 1][3]) * 15 + 128) >> 8) as u8;\n"),
      (L + "alpha.rs", "use crate::math::f32_to_i32_clamped;\n", "")],
     '''fn main() {
    for a in 0..=255u8 {
        let d = rt(Format::Bc2, &[[9, 9, 9, a]; 16], 0xffff, Algorithm::RangeFit, U, false);
        assert!((d[0][3] as i32 - a as i32).abs() <= 8, "{}", a);
    }
}''')
seed("C10-computed-index", "C10", "a value close to the middle between two entries of a seven-step ramp whose entries are rounded down",
     "indices of the seven-step ramp are computed from the exact ramp instead of the entries, which are rounded down",
     [(L + "alpha.rs", "    let err7 = fit_codes(rgba, channel, mask, codes7, &mut indices7);\n", "    let err7 = fit_ramp(rgba, channel, mask, codes7, &mut indices7);\n"),
      (L + "alpha.rs", "fn write_alpha_block(", "/// fit_codes for a ramp: the position of the value gives its index\nfn fit_ramp(\n    rgba: &[[u8; 4]; 16],\n    channel: usize,\n    mask: u32,\n    codes: [u8; 8],\n    indices: &mut [u8; 16],\n) -> u32 {\n    let (min, max) = (i32::from(codes[0]), i32::from(codes[1]));\n    let mut err = 0;\n    for i in 0..16 {\n        indices[i] = 0;\n        if (mask & (1 << i)) == 0 {\n            continue;\n        }\n        let value = i32::from(rgba[i][channel]);\n        let step = (14 * (value - min) + (max - min)) / (2 * (max - min));\n        indices[i] = match step {\n            0 => 0,\n            7 => 1,\n            s => s as u8 + 1,\n        };\n        let dist = value - i32::from(codes[indices[i] as usize]);\n        err += (dist * dist) as u32;\n    }\n    err\n}\n\nfn write_alpha_block(")],
     '''fn main() {
    let mut s = 77;
    for _ in 0..3000 {
        let mut px = [[0u8, 0, 0, 255]; 16];
        for p in px.iter_mut() { p[0] = (rng(&mut s) >> 9) as u8; }
        let b = enc(Format::Bc4, &px, 0xffff, Algorithm::RangeFit, U, false);
        let d = Format::Bc4.decompress_block(&b);
        let pal: Vec<i32> = (0..8u64).map(|k| {
            let mut c = b.clone();
            for (j, x) in c[2..].iter_mut().enumerate() { *x = ((0..16u64).fold(0u64, |a, i| a | k << (3 * i)) >> (8 * j)) as u8; }
            Format::Bc4.decompress_block(&c)[0][0] as i32
        }).collect();
        for i in 0..16 {
            let v = px[i][0] as i32;
            assert!(pal.iter().all(|e| (e - v).abs() >= (d[i][0] as i32 - v).abs()));
        }
    }
}''')
BOTH = '''#!/bin/bash
# builds main.rs with and without the rayon feature in a scratch directory and compares what the two print
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
for f in '' '"rayon"'; do
mkdir -p "$D/src"
cp "$H/main.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
texpresso = { path = "$R/lib", features = [$f] }
EOF
(cd "$D"; RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$D/target" cargo run -q --offline) > "$D/out$f"
done
cmp "$D/out" "$D/out\\"rayon\\""
'''
BMAIN = '''#![allow(dead_code)]
use texpresso::*;
fn main() {
    let mut s = 99u64;
    let mut rnd = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s >> 20) as u8 };
    for k in 0..60 {
        let (w, h) = (1 + 3 * k % 17, 1 + 5 * k % 23);
        let src: Vec<u8> = (0..w * h * 4).map(|_| rnd()).collect();
        for f in [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5] {
            for a in [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit] {
                let mut out = vec![0u8; f.compressed_size(w, h)];
                f.compress(&src, w, h, Params { algorithm: a, ..Params::default() }, &mut out);
                let mut back = vec![0u8; w * h * 4];
                f.decompress(&out, w, h, &mut back);
                println!("{:?} {:?}", out, back);
            }
        }
    }
}
'''
seed("C17-parallel-effort", "C17", "the rayon build and an iterative cluster fit that improves after the fourth iteration",
     "the parallel build iterates less often",
     [(L + "colourfit/cluster.rs", "const MAX_ITERATIONS: usize = 8;\n", "// many threads make up for fewer iterations\nconst MAX_ITERATIONS: usize = if cfg!(feature = \"rayon\") { 3 } else { 8 };\n")],
     script=BOTH, files={"main.rs": BMAIN})
seed("C19-plain-alpha", "C19", "alpha weighting and an opaque block in which two encodings are nearly equally good",
     "the weight of an opaque pixel is 255/256 instead of 1",
     [(L + "colourset.rs", "                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 256f32;\n", "                    let w = i32::from(rgba[i][3]).max(1) as f32 / 256f32;\n")],
     '''fn main() {
    let mut s = 41;
    for _ in 0..200000 {
        let mut px = [[0u8; 4]; 16];
        for p in px.iter_mut() { let r = rng(&mut s); let v = (r >> 8) as u8 % 7; *p = [v * 30, v * v * 4, 70 + v, 255]; }
        let a = enc(Format::Bc1, &px, 0xffff, Algorithm::ClusterFit, U, false);
        assert_eq!(a, enc(Format::Bc1, &px, 0xffff, Algorithm::ClusterFit, U, true));
    }
}''', n=2)
seed("C16-weighted-colours", "C16", "alpha weighting in BC2 or BC3 and one colour with two different alphas",
     "with alpha weighting a colour is only merged with pixels of the same alpha, so its copies can be fitted differently",
     [(L + "colourset.rs", "                    && (rgba[i][2] == rgba[j][2])\n", "                    && (rgba[i][2] == rgba[j][2])\n                    && (!alpha_weighted || rgba[i][3] == rgba[j][3])\n")],
     '''fn main() {
    let mut s = 5;
    for k in 0..400000 {
        let mut px = [[0u8; 4]; 16];
        for p in px.iter_mut() { let r = rng(&mut s); *p = [(r >> 8) as u8 % 3 * 20, (r >> 16) as u8 % 2 * 9, (r >> 24) as u8, (r >> 32) as u8]; }
        for i in 8..16 { for c in 0..3 { px[i][c] = px[i - 8][c]; } }
        let d = rt(Format::Bc3, &px, 0xffff, Algorithm::ClusterFit, U, true);
        for i in 8..16 { assert_eq!(d[i][..3], d[i - 8][..3], "{}", k); }
    }
}''')
PAIR = '''fn w5(l: u8) -> u8 { l * 8 + l / 4 }
fn w6(l: u8) -> u8 { l * 4 + l / 16 }
fn both(a: [u8; 3], b: [u8; 3], n: usize, w: [f32; 3]) {
    let (a, b) = ([a[0], a[1], a[2], 255], [b[0], b[1], b[2], 255]);
    let mut px = [b; 16];
    for i in 0..n { px[i * 5 % 16] = a; }
    for f in [Format::Bc1, Format::Bc2, Format::Bc3] {
        let d = rt(f, &px, 0xffff, Algorithm::RangeFit, w, false);
        for i in 0..16 { assert_eq!(d[i], px[i], "{:?}", f); }
    }
}
fn pairs(mut f: impl FnMut([u8; 3], [u8; 3])) {
    for r in 0..31u8 {
        for g in (0..62u8).step_by(3) {
            let b = (r as u32 * 7 + g as u32) as u8 % 31;
            let a = [w5(r), w6(g), w5(b)];
            for c in [[w5(r + 1), a[1], a[2]], [a[0], a[1], w5(b + 1)], [w5(r + 1), w6(g + 2), a[2]], [a[0], w6(g + 2), w5(b + 1)]] { f(a, c); f(c, a); }
            f([w5(r + 1), a[1], w5(b)], [w5(r), a[1], w5(b + 1)]);
        }
    }
}
'''
seed("C21-centroid-count", "C21", "range fit on a block of two colours whose difference is orthogonal to their sum, e.g. equally bright red and green in equal parts",
     "the centroid is divided by the number of points instead of their total weight, so the covariance is dominated by the mean colour",
     [(L + "math.rs", "            centroid / total\n", "            centroid / points.len() as f32\n")],
     PAIR + '''fn main() {
    for r in 0..32 {
        for b in 0..32 { if r != b { for g in [0, 20, 63] { for n in [1, 4, 8] { both([w5(r), w6(g), w5(b)], [w5(b), w6(g), w5(r)], n, U); } } } }
    }
}''')
seed("C21-grey-axis", "C21", "range fit on a low-contrast block of two colours that differ in opposite directions, e.g. one level more red and one less blue",
     "for nearly flat blocks the principal axis is replaced by the grey axis, on which such colours coincide",
     [(L + "math.rs", "            let a = Vec4::new(a, a, a, a);\n", "            // nearly flat: rounding errors decide, use the grey axis\n            if a < 1e-4 {\n                return Vec3::new(1.0, 1.0, 1.0);\n            }\n            let a = Vec4::new(a, a, a, a);\n")],
     PAIR + '''fn main() {
    pairs(|a, b| { both(a, b, 1, U); both(a, b, 8, U); both(a, b, 15, U); });
}''')
seed("C21-close-ends", "C21", "range fit on a block of two colours one level apart in a single channel whose levels are 8 values apart",
     "points closer than a level of the 5-bit grid do not extend the range",
     [(L + "colourfit/range.rs", "                if dot < min {\n", "                // less than a level of the grid away\n                if (dot - min).abs() < 1.0 / 31.0 {\n                    continue;\n                }\n                if dot < min {\n")],
     PAIR + '''fn main() {
    pairs(|a, b| both(a, b, 5, U));
}''')
seed("C21-good-enough", "C21", "range fit on two neighbouring colours with small colour weights",
     "the search for the closest code stops at the first one that is close enough, in weighted distance",
     [(L + "colourfit/range.rs", "                    dist = d;\n                    idx = j;\n", "                    dist = d;\n                    idx = j;\n                    // cannot get visibly better\n                    if d < 1e-5 {\n                        break;\n                    }\n")],
     PAIR + '''fn main() {
    let w = [0.0625f32; 3];
    pairs(|a, b| { both(a, b, 5, w); both(a, b, 5, U); });
}''')
seed("C21-covariance-sign", "C21", "range fit on a block of two colours whose red falls while blue rises",
     "the covariance of red and blue is taken with the sign lost, so colours that differ in opposite directions get an axis across their difference",
     [(L + "math.rs", "            covariance.x[..][2] += a.x() * b.z();\n", "            covariance.x[..][2] += (a.x() * b.z()).abs();\n"),
      (L + "math.rs", "            covariance.x[..][1] += a.x() * b.y();\n", "            covariance.x[..][1] += (a.x() * b.y()).abs();\n"),
      (L + "math.rs", "            covariance.x[..][4] += a.y() * b.z();\n", "            covariance.x[..][4] += (a.y() * b.z()).abs();\n")],
     PAIR + '''fn main() {
    pairs(|a, b| both(a, b, 5, U));
}''')

# ------------------------------------------------------------------ C23
NEAREST = '''fn wide(v: u16, n: u32) -> f64 { let v = v as u32; (if n == 5 { v * 8 + v / 4 } else { v * 4 + v / 16 }) as f64 }
fn near(f: Format, px: &[[u8; 4]; 16], mask: u32, w: [f32; 3]) {
    let b = enc(f, px, mask, Algorithm::RangeFit, w, false);
    let d = f.decompress_block(&b);
    let mut q = b.clone();
    let h = q.len() - 4;
    for k in h..q.len() { q[k] = 0xe4; }
    let pal = f.decompress_block(&q);
    let len = |d: [f64; 3]| (0..3).map(|k| (w[k] as f64 * d[k]).powi(2)).sum::<f64>().sqrt();
    for i in 0..16 {
        if mask >> i & 1 == 0 { continue; }
        let dist = |c: &[u8; 4]| len([0, 1, 2].map(|k| px[i][k] as f64 - c[k] as f64));
        for c in &pal[..4] {
            if f == Format::Bc1 && c[3] == 0 { continue; }
            assert!(dist(&d[i]) <= dist(c) + 3.0 * len([1.0; 3]), "{:?} -> {:?}, {:?} is nearer", px[i], d[i], c);
        }
    }
}
fn blocks(mut f: impl FnMut(&[[u8; 4]; 16])) {
    let mut s = 88172645463325252u64;
    for _ in 0..20000 {
        let mut px = [[255u8; 4]; 16];
        let base = rng(&mut s);
        let narrow = rng(&mut s) % 3 == 0;
        for p in px.iter_mut() { for k in 0..3 { p[k] = if narrow { ((base >> 8 * k) as u8).saturating_add((rng(&mut s) % 40) as u8) } else { (rng(&mut s) >> 30) as u8 }; } }
        f(&px);
    }
}
'''
seed("C23-weights-once", "C23", "range fit with unequal colour weights on a block whose colours leave the line between its ends",
     "the weights enter the distance once instead of squared",
     [(L + "colourfit/range.rs", "                let d = (self.weights * (values[i] - code)).length2();\n", "                let diff = values[i] - code;\n                let d = (self.weights * diff).dot(&diff);\n")],
     NEAREST + '''fn main() {
    blocks(|px| { for w in [[16.0, 1.0, 0.0625], [0.25, 8.0, 0.5], U] { for f in [Format::Bc1, Format::Bc3] { near(f, px, 0xffff, w); } } });
}''')
seed("C23-weight-order", "C23", "range fit with different weights for green and blue",
     "the weights of green and blue are swapped when the fit is made",
     [(L + "colourfit/range.rs", "Vec3::new(weights[0], weights[1], weights[2])", "Vec3::new(weights[0], weights[2], weights[1])")],
     NEAREST + '''fn main() {
    blocks(|px| for w in [[1.0, 16.0, 0.0625], [1.0, 0.5, 8.0], U] { near(Format::Bc2, px, 0xffff, w); });
}''')
seed("C23-blend-fractions", "C23", "range fit in four-colour mode on a pixel between an end and the blend next to it",
     "the codes of the blends are at 3/8 and 5/8, the decoder's at 1/3 and 2/3",
     [(L + "colourfit/range.rs", "            self.start * (2.0 / 3.0) + self.end * (1.0 / 3.0),\n            self.start * (1.0 / 3.0) + self.end * (2.0 / 3.0),\n",
       "            self.start * 0.625 + self.end * 0.375,\n            self.start * 0.375 + self.end * 0.625,\n")],
     NEAREST + '''fn main() {
    blocks(|px| {
        for f in [Format::Bc1, Format::Bc3] { near(f, px, 0xffff, U); }
        let mut grey = *px;
        for (k, p) in grey.iter_mut().enumerate() { *p = [(k * 17) as u8, (k * 17) as u8, (k * 17) as u8, 255]; }
        near(Format::Bc3, &grey, 0xffff, U);
    });
}''')
seed("C23-early-exit", "C23", "four-colour range fit on a pixel nearest to the second blend whose first blend is no better than the ends",
     "the search stops at the first blend that does not improve on the ends",
     [(L + "colourfit/range.rs", "                    dist = d;\n                    idx = j;\n                }\n", "                    dist = d;\n                    idx = j;\n                } else if j > 1 {\n                    // past the nearest code\n                    break;\n                }\n")],
     NEAREST + '''fn main() {
    blocks(|px| { for w in [U, [0.0625; 3], [16.0, 1.0, 1.0]] { for f in [Format::Bc1, Format::Bc2] { near(f, px, 0xffff, w); } } });
}''')
seed("C23-remembered-index", "C23", "range fit on a block with two neighbouring distinct colours that are nearly equal, in row order",
     "a colour within one level of the previous one takes its index without a search",
     [(L + "colourfit/range.rs", "            for (j, code) in codes.iter().enumerate() {\n", "            // nearly the colour before it: same index\n            if i > 0 && (values[i] - values[i - 1]).length2() < 1.0 / (24.0 * 24.0) {\n                closest[i] = closest[i - 1];\n                error += (self.weights * (values[i] - codes[closest[i] as usize])).length2();\n                continue;\n            }\n\n            for (j, code) in codes.iter().enumerate() {\n")],
     NEAREST + '''fn main() {
    blocks(|px| {
        near(Format::Bc3, px, 0xffff, U);
        let mut ramp = *px;
        for (k, p) in ramp.iter_mut().enumerate() { *p = [px[0][0] / 2 + 5 * k as u8, px[0][1] / 2 + 4 * k as u8, px[0][2], 255]; }
        near(Format::Bc3, &ramp, 0xffff, U);
    });
}''')

# another round over the properties with few planted changes
seed("C03-flat-gradient", "C03", "a gradient block with equal endpoints and an index of 6 or 7",
     "a gradient block whose endpoints are equal decodes to that value whatever the indices say",
     [(L + "alpha.rs", "    // get endpoint values\n    let alpha0 = i32::from(bytes[0]);", "    // flat block\n    if bytes[0] == bytes[1] {\n        for pixel in rgba.iter_mut() {\n            pixel[channel] = bytes[0];\n        }\n        return;\n    }\n\n    // get endpoint values\n    let alpha0 = i32::from(bytes[0]);")],
     '''fn main() {
    let d = Format::Bc5.decompress_block(&[9, 8, 0, 0, 0, 0, 0, 0, 7, 7, 0b00_111_110, 0, 0, 0, 0, 0]);
    assert_eq!((d[0][1], d[1][1], d[2][1]), (0, 255, 7));
}''')
seed("C04-many-blocks", "C04", "an image of more than 65536 blocks",
     "the number of a block is kept in 16 bits while decompressing",
     [(L + "lib.rs", "let bidx = (x + y * blocks_wide) * block_size;", "let bidx = usize::from((x + y * blocks_wide) as u16) * block_size;")],
     '''fn main() {
    let (w, h) = (4, 4 * 65540);
    let mut data = vec![0u8; 8 * 65540];
    data[8 * 65538] = 200;
    let mut out = vec![0u8; w * h * 4];
    Format::Bc4.decompress(&data, w, h, &mut out);
    assert_eq!(out[64 * 65538], 200);
    assert_eq!(out[64 * 2], 0);
}''')
seed("C08-empty-cluster", "C08", "cluster fit on a BC1 block all of whose pixels are transparent",
     "fully transparent blocks go to cluster fit, which writes nothing for them, so they decode to opaque black",
     [(L + "lib.rs", "(params.algorithm == Algorithm::RangeFit) || (colours.count() == 0)", "params.algorithm == Algorithm::RangeFit")],
     '''fn main() {
    for a in [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit] {
        let d = rt(Format::Bc1, &[[40, 50, 60, 127]; 16], 0xffff, a, U, false);
        assert!(d.iter().all(|p| p[3] == 0), "{:?}", d);
    }
}''')
seed("C11-capped-error", "C11", "a block whose only bad values under one ramp are far from it",
     "the error of a single pixel is capped before the two ramps are compared",
     [(L + "alpha.rs", "        err += least;\n", "        // outliers are not worth the whole block\n        err += least.min(256);\n")],
     '''fn main() {
    // 0 and 255 around values that only the 5-step ramp keeps apart
    let mut s = 88172645463325252u64;
    for _ in 0..200000 {
        let mut px = [[0u8; 4]; 16];
        let (lo, hi) = { let a = rng(&mut s) as u8; let b = (rng(&mut s) >> 9) as u8; (a.min(b), a.max(b)) };
        for p in px.iter_mut() {
            p[0] = match rng(&mut s) % 8 { 0 => 0, 1 => 255, k => (lo as u32 + (hi - lo) as u32 * (k as u32 - 2) / 5) as u8 };
        }
        let d = rt(Format::Bc4, &px, 0xffff, Algorithm::RangeFit, U, false);
        let got: u32 = (0..16).map(|i| (px[i][0] as i32 - d[i][0] as i32).pow(2) as u32).sum();
        let v: Vec<i32> = px.iter().map(|p| p[0] as i32).collect();
        let (m, x) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
        let seven: Vec<i32> = (0..8).map(|i| ((7 - i) * m + i * x) / 7).collect();
        let err = |c: &[i32]| v.iter().map(|a| c.iter().map(|b| (a - b) * (a - b)).min().unwrap() as u32).sum::<u32>();
        assert!(got <= err(&seven), "{:?}: {} > {}", v, got, err(&seven));
        let inner: Vec<i32> = v.iter().copied().filter(|&a| a != 0 && a != 255).collect();
        if let (Some(&m), Some(&x)) = (inner.iter().min(), inner.iter().max()) {
            let mut five: Vec<i32> = (0..6).map(|i| ((5 - i) * m + i * x) / 5).collect();
            five.extend([0, 255]);
            assert!(got <= err(&five), "{:?}: {} > {}", v, got, err(&five));
        }
    }
}''')
seed("C15-opaque-alpha", "C15", "a BC3 block of opaque pixels",
     "the alpha half of an opaque BC3 block is written without the search, with other endpoints than BC4 uses for the same values",
     [(L + "lib.rs", "            Format::Bc3 => alpha::compress_bc3(&rgba, 3, mask, &mut output[..8]),\n", "            // opaque blocks are common and need no search\n            Format::Bc3 if mask == 0xFFFF && rgba.iter().all(|pixel| pixel[3] == 255) => {\n                output[..8].copy_from_slice(&[255, 255, 0, 0, 0, 0, 0, 0]);\n            }\n            Format::Bc3 => alpha::compress_bc3(&rgba, 3, mask, &mut output[..8]),\n")],
     '''fn main() {
    let a = enc(Format::Bc3, &[[1, 2, 3, 255]; 16], 0xffff, Algorithm::RangeFit, U, false);
    let b = enc(Format::Bc4, &[[255, 2, 3, 255]; 16], 0xffff, Algorithm::RangeFit, U, false);
    assert_eq!(a[..8], b[..]);
}''')
seed("C19-normalised-weights", "C19", "alpha weighting and an opaque block with masked-out pixels in which two clusterings are nearly equally good",
     "with alpha weighting the weights of a block are scaled to a sum of one",
     [(L + "colourset.rs", "        // square root the weights\n", "        // only the ratio of the alphas matters\n        if alpha_weighted {\n            let total: f32 = set.weights.iter().sum();\n            for w in set.weights.iter_mut().take(set.count) {\n                *w /= total;\n            }\n        }\n\n        // square root the weights\n")],
     '''fn main() {
    let mut s = 88172645463325252u64;
    for n in 0..60000 {
        let mut px = [[255u8; 4]; 16];
        let k = rng(&mut s) % 4;
        for p in px.iter_mut() { for c in 0..3 { p[c] = ((rng(&mut s) >> 30) % 256 >> k << k) as u8; } }
        if n % 2 == 0 { for i in 8..16 { px[i] = px[i - 8]; } }
        let f = [Format::Bc1, Format::Bc2][n % 2];
        let mask = 0xffff >> 1 + rng(&mut s) % 12;
        let a = enc(f, &px, mask, Algorithm::IterativeClusterFit, U, false);
        let b = enc(f, &px, mask, Algorithm::IterativeClusterFit, U, true);
        assert_eq!(a, b, "{:?}", px);
    }
}''')
cli("C18-legacy-alpha", "C18", "a DDS file with the legacy DXT3 label",
    "the premultiplied DXT2 and DXT4 labels are accepted as well, but DXT3 is taken for BC3",
    [(M, "        D3DFormat::DXT3 => Format::Bc2,\n        D3DFormat::DXT5 => Format::Bc3,\n", "        D3DFormat::DXT2 => Format::Bc2,\n        D3DFormat::DXT3 | D3DFormat::DXT4 | D3DFormat::DXT5 => Format::Bc3,\n")],
    """
def legacy(cc, body):
    h = struct.pack("<IIIIIII", 124, 0x81007, 4, 4, len(body), 0, 0) + bytes(44)
    h += struct.pack("<II4sIIIII", 32, 4, cc, 0, 0, 0, 0, 0) + struct.pack("<IIIII", 0x1000, 0, 0, 0, 0)
    return b"DDS " + h + body
body = bytes([0x10, 0x32, 0x54, 0x76, 0x98, 0xba, 0xdc, 0xfe]) + bytes([0x34, 0x12, 0x78, 0x56, 1, 2, 3, 4])
open(D + "/old.dds", "wb").write(legacy(b"DXT3", body))
subprocess.run([EXE, "decompress", "-o", D + "/old.png", D + "/old.dds"], check=True)
o = open(D + "/old.png", "rb").read()
i = o.index(b"IDAT"); n, = struct.unpack(">I", o[i - 4:i])
raw = zlib.decompress(o[i + 4:i + 4 + n])
pixels, prev = [], bytes(16)
for y in range(4):
    f, row = raw[17 * y], bytearray(raw[17 * y + 1:17 * y + 17])
    for x in range(16):
        a = row[x - 4] if x >= 4 else 0; b = prev[x]; c = prev[x - 4] if x >= 4 else 0
        pa = a + b - c
        p = min((a, b, c), key=lambda v: (abs(pa - v)))
        row[x] = (row[x] + [0, a, b, (a + b) // 2, p][f]) & 255
    pixels += [row[4 * x + 3] for x in range(4)]
    prev = bytes(row)
assert pixels == [17 * k for k in range(16)], pixels
""")
cli("C22-normalised-weights", "C22", "-w weights that do not sum to one, on a block with nearly equal candidates",
    "the colour weights are scaled to a sum of one before they reach the library",
    [(M, "                w = [weights[0], weights[1], weights[2]];\n", "                // only their ratio matters\n                let total: f32 = weights.iter().sum();\n                w = [weights[0] / total, weights[1] / total, weights[2] / total];\n")],
    """
import os
# the library is called with the same weights by a second program
lib = os.path.join(os.getcwd(), "lib")
os.makedirs(D + "/ref/src")
open(D + "/ref/Cargo.toml", "w").write('[package]\\nname = "reference"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\ntexpresso = { path = "%s" }\\n' % lib)
open(D + "/ref/src/main.rs", "w").write('''use std::io::*;
use texpresso::*;
fn main() {
    let mut px = vec![];
    stdin().read_to_end(&mut px).unwrap();
    let mut out = vec![0; Format::Bc1.compressed_size(256, 256)];
    Format::Bc1.compress(&px, 256, 256, Params { algorithm: Algorithm::ClusterFit, weights: [3.0, 7.0, 5.0], weigh_colour_by_alpha: false }, &mut out);
    stdout().write_all(&out).unwrap();
}''')
subprocess.run(["cargo", "build", "-q", "--offline", "--manifest-path", D + "/ref/Cargo.toml", "--target-dir", D + "/reft"], check=True, env=dict(os.environ, RUSTFLAGS="-Awarnings"))
for _ in range(4):
    pair = [noise(2, 1, 255) for _ in range(4096)]
    px = [pair[(x >> 2) + 64 * (y >> 2)][random.randrange(5) // 4] for y in range(256) for x in range(256)]
    got = compress(rgba(256, 256, px), "-f", "bc1", "-w", "3", "-w", "7", "-w", "5")[1]
    want = subprocess.run([D + "/reft/debug/reference"], input=bytes(v for p in px for v in p), stdout=subprocess.PIPE, check=True).stdout
    assert got == want
""")
cli("C22-wide-image", "C22", "an image wider than 65535 pixels",
    "the size in the DDS header is kept in 16 bits",
    [(M, "        width: image.width as u32,\n", "        width: u32::from(image.width as u16),\n")],
    """
compress(png(65540, 1, 0, 8, [bytes(65540)]), "-f", "bc4", "-p", "speed")
o = open(D + "/out.dds", "rb").read()
assert struct.unpack("<II", o[12:20]) == (1, 65540), o[12:20]
""")
