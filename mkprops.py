#!/usr/bin/env python3
"""Writes properties.jsonl (kept in Python only for readable wrapping)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))


L, A, CB, CS = "lib/src/lib.rs", "lib/src/alpha.rs", "lib/src/colourblock.rs", "lib/src/colourset.rs"
RF, CF, SF, LUT = ["lib/src/colourfit/" + x for x in ("range.rs", "cluster.rs", "single.rs", "single_lut.rs")]
FIT = "lib/src/colourfit.rs"
HOOK = "cfg texpresso_verif include points for harnesses next to private functions"

p("C01", "BC1 blocks decode to the palette the format defines",
  """Decoding any 8-byte BC1 block yields, for every one of its 16 pixels in row-major order, the palette entry selected by that
  pixel's 2-bit index: four opaque colours (endpoints and the 1/3, 2/3 blends, rounded down) when the first 5:6:5 endpoint is
  numerically greater than the second, otherwise the two endpoints, their average and transparent black. Endpoints expand to 8
  bits by bit replication and every entry but transparent black has alpha 255.""",
  ["inputs"], "all 2^64 blocks, all 16 pixels, all 4 channels",
  "the unit tests decode two fixed images; equal and nearly equal endpoints, the 3-colour palette and most index/endpoint combinations are never seen",
  [L, CB], [("endpoint unpacking, mode choice and palette", CB + " decompress, unpack_565")], ["Format::decompress_block(Bc1)"])
p("C02", "BC2 and BC3 blocks decode to the colours and alpha the format defines",
  """Decoding any 16-byte BC2 or BC3 block takes colour from the second half, always with the four-colour palette whatever the order
  of its endpoints, and alpha from the first half. BC2 alpha is the pixel's 4-bit value times 17; BC3 alpha is the entry selected
  by the pixel's 3-bit index in the 8-entry gradient (7-step ramp when the first endpoint is greater, else 5-step ramp plus 0
  and 255, intermediate values rounded down).""",
  ["inputs"], "all 2^128 blocks of each format, all 16 pixels and 4 channels",
  "the tests decode one image per format", [L, CB, A],
  [("half selection", L + " decompress_block"), ("4-bit alpha", A + " decompress_bc2"), ("gradient alpha", A + " decompress_bc3")],
  ["Format::decompress_block(Bc2)", "Format::decompress_block(Bc3)"])
p("C03", "BC4 and BC5 blocks decode to the gradients the format defines",
  """Decoding any BC4 block yields the gradient entry selected by each pixel's 3-bit index replicated to red, green and blue with alpha
  255. Decoding any BC5 block yields red from the first half, green from the second half, blue 0 and alpha 255. A gradient is the
  7-step ramp when its first endpoint is greater than its second, otherwise a 5-step ramp plus exact 0 and 255.""",
  ["inputs"], "all 2^64 BC4 and 2^128 BC5 blocks, all 16 pixels and 4 channels",
  "the tests decode one grey image per format", [L, A],
  [("gradient decoding", A + " decompress_bc3"), ("splat / channel choice", L + " decompress_block")],
  ["Format::decompress_block(Bc4)", "Format::decompress_block(Bc5)"])
p("C04", "Decompressing an image puts every decoded pixel at its place",
  """For every format and every image at least one pixel wide and high, pixel (x, y) of the decompressed image is pixel
  (x mod 4, y mod 4) of the decoded block (x / 4, y / 4), with blocks stored row by row; block pixels outside the image are
  discarded.""",
  ["inputs", "configurations"], "all formats, all widths and heights >= 1 (not only multiples of 4), all contents, output buffers of the image's size or larger",
  "the tests decompress 4x4 images and one 4x6 image with uniform rows; wide images, several block rows and ragged right edges are never checked",
  [L], [("block loop and edge test", L + " Format::decompress")], ["Format::decompress"])
p("C05", "Compressing an image encodes each 4x4 block from exactly its own pixels",
  """For every format, every parameter set and every image at least one pixel wide and high, block (x, y) of the compressed image, at
  position x + y * ceil(width / 4), is the encoding of the image pixels (4x..4x+3, 4y..4y+3), with exactly the pixels that lie
  outside the image masked out. No pixel of another block influences it.""",
  ["inputs", "configurations"], "all formats, algorithms, all widths and heights >= 1, all contents, output buffers of the compressed size or larger",
  "the tests compress single 4x4 blocks", [L], [("block gathering and mask", L + " Format::compress")], ["Format::compress", "Format::compress_block_masked"])
p("C06", "Buffer sizes are exact: nothing missing, nothing written past the end",
  """compressed_size is ceil(width/4) * ceil(height/4) blocks of 8 bytes (BC1, BC4) or 16 bytes (BC2, BC3, BC5). Compressing into a
  buffer of that size or any larger one succeeds and writes exactly that many leading bytes; a smaller buffer is refused by a panic
  before anything is written. Decompressing accepts any output buffer of at least width*height*4 bytes, writes exactly the first
  width*height*4 bytes, and panics on truncated input instead of inventing pixels.""",
  ["inputs"], "all formats, all widths and heights >= 1 whose sizes fit in usize, all buffer lengths",
  "the tests check ten sizes and always pass exactly sized buffers", [L],
  [("size formula", L + " num_blocks, block_size, compressed_size"), ("buffer assertion and row split", L + " compress, decompress")],
  ["Format::compressed_size", "Format::compress", "Format::decompress"])
p("C07", "Masked-out pixels never influence the encoded block",
  """When some pixels of a block are masked out, the encoded bytes are the same whatever values those pixels hold, for every format,
  algorithm, weight vector and alpha-weighting choice; mask bits above the 16 pixels are ignored.""",
  ["inputs", "configurations"], "all formats and parameters, all masks, all pixel values, all replacement values",
  "the tests never pass a partial mask", [L, A, CS],
  [("mask tests", CS + " ColourSet::new"), ("mask tests", A + " compress_bc2, compress_bc3, fit_codes")], ["Format::compress_block_masked"], hook=HOOK)
p("C08", "BC1 keeps the binary alpha of every pixel",
  """After BC1 encoding with any algorithm and any moderate non-negative colour weights, every visible pixel with alpha below 128
  decodes to transparent black (alpha 0), and every visible pixel with alpha 128 or more decodes to an opaque colour (alpha 255).""",
  ["inputs", "configurations"], "all 16-pixel blocks and masks, all three algorithms, weights in [0, 1], with and without alpha weighting",
  "the tests only encode opaque images", [CS, FIT, CB, RF, CF, SF],
  [("transparent pixels map to index 3", CS + " ColourSet::new, remap_indices"), ("three-colour mode is forced", FIT + " ColourFit::compress"),
   ("endpoint order carries the mode", CB + " write3, write4")], ["Format::compress_block_masked(Bc1) then Format::decompress_block(Bc1)"], hook=HOOK)
p("C09", "BC2 alpha is the nearest 4-bit level for every pixel",
  """After BC2 encoding, every visible pixel's alpha decodes to the multiple of 17 nearest to its original alpha (error at most 8, so 0
  and 255 are exact), and every masked-out pixel decodes to alpha 0.""",
  ["inputs"], "all alpha values at all 16 positions, all masks", "two images are tested, all with alpha 255",
  [A, "lib/src/math.rs"], [("quantisation and packing", A + " compress_bc2"), ("rounding", "lib/src/math.rs f32_to_i32_clamped")],
  ["Format::compress_block_masked(Bc2) then Format::decompress_block(Bc2)"], hook=HOOK)
p("C10", "Gradient channels store the palette entry nearest to each value",
  """After BC3 (alpha), BC4 (red) or BC5 (red and green) encoding, every visible pixel's value decodes to the entry of the 8-entry palette
  stored in its block that is nearest to the original value: no other entry of that palette is closer.""",
  ["inputs"], "all channel values at all 16 positions, all masks, all three formats",
  "the tests encode one image per format and compare one encoding", [A],
  [("nearest-code search", A + " fit_codes"), ("index remapping and packing", A + " write_alpha_block5/7, write_alpha_block")],
  ["Format::compress_block_masked then Format::decompress_block"], hook=HOOK)
p("C11", "Gradient palettes are chosen well: extremes exact, narrow ranges lossless",
  """After BC3 (alpha), BC4 (red) or BC5 (red and green) encoding, visible values 0 and 255 decode exactly, and a block whose visible
  values span at most 7 levels decodes exactly. The block's total squared error over visible pixels never exceeds that of the
  8-entry ramp between its smallest and largest value, nor that of 0, 255 and the 6-entry ramp between its smallest non-zero and
  largest non-255 value (each value taking its nearest entry).""",
  ["inputs"], "all channel values at all 16 positions, all masks, all three formats",
  "the tests encode one image per format; the error of the alternative palette is never computed", [A],
  [("range scan, codebooks and choice", A + " compress_bc3, fix_range, fit_codes")],
  ["Format::compress_block_masked then Format::decompress_block"], hook=HOOK)
p("C12", "Solid-colour blocks are encoded optimally",
  """When all used pixels of a BC1, BC2 or BC3 block (visible, and for BC1 opaque) have one colour, they all decode to one colour whose
  squared RGB error is the smallest any encoding of such a uniform block can reach by letting all pixels use an endpoint, the 1/3
  blend (not for BC1 blocks with a visible transparent pixel) or, for BC1, the average of the endpoints. This holds for every
  algorithm and weight vector.""",
  ["inputs", "configurations"], "all 2^24 colours, all masks, all BC1 transparency patterns, all algorithms and weights",
  "the tests contain a handful of colours out of 2^24; the lookup tables have 1024 entries nobody checks", [SF, LUT, CS, CB],
  [("lookup tables", LUT), ("mode and entry choice", SF + " compute_endpoints, compress3, compress4")],
  ["Format::compress_block_masked then Format::decompress_block"], hook=HOOK)
p("C13", "Range fit never leaves the colour range of the block",
  """With the RangeFit algorithm, for every BC1, BC2 or BC3 block with at least two distinct used colours, each decoded colour channel of
  each used pixel lies between the smallest and the largest value of that channel among the used pixels, each rounded to the nearest
  5- or 6-bit level (pixels are used when visible and, for BC1, opaque).""",
  ["inputs", "configurations"], "all blocks and masks, all weights of magnitude at most 2^20, with and without alpha weighting",
  "the tests compare three encodings", [RF, CB], [("endpoints are block colours on the grid", RF + " RangeFit::new"), ("packing", CB + " pack_565, write3, write4")],
  ["Format::compress_block_masked(RangeFit) then Format::decompress_block"], hook=HOOK)
p("C14", "Block encoding and decoding are total and fully determined by their input",
  """Encoding never panics for any pixels, mask, algorithm or weights (infinities and NaN included) given a buffer of the block size, and
  decoding never panics for any block; the encoder overwrites every byte of the block, so the result does not depend on what the
  buffer held before.""",
  ["inputs", "configurations"], "all formats, algorithms, pixels, masks, all f32 weights, all previous buffer contents",
  "eighteen fixed inputs are tested, none with partial masks, transparent pixels or unusual weights", [L, A, CS, FIT, RF, CF, SF, CB],
  [("buffers are filled from complete local blocks", FIT + " ColourFit::compress; " + A + " write_alpha_block, compress_bc2")],
  ["Format::compress_block_masked", "Format::decompress_block"], hook=HOOK)
p("C15", "Channels are encoded independently of each other",
  """BC4 depends on red only; BC5 is the BC4 block of red followed by the BC4 block of green; the first half of BC3 is the BC4 block of
  alpha and the first half of BC2 depends on alpha only; none of these depends on the algorithm or weights. BC2 and BC3 share one
  colour encoding, which does not depend on alpha unless alpha weighting is requested.""",
  ["inputs", "configurations"], "all pixel values in the relevant and the other channels, all masks and parameters",
  "each test image exercises one format with correlated channels", [L, A, CS],
  [("channel argument and halves", L + " compress_block_masked"), ("colour set", CS + " ColourSet::new")], ["Format::compress_block_masked"], hook=HOOK)
p("C16", "Equal pixels stay equal",
  """Two visible pixels of one block with the same RGBA value decode to the same RGBA value after encoding, for every format, algorithm and
  weight vector. In BC1 (both opaque), BC2 and BC3, equal RGB is enough for equal decoded RGB.""",
  ["inputs", "configurations"], "all blocks, masks, formats, algorithms, weights and alpha-weighting choices",
  "no test looks at the relation between pixels", [CS, CB, RF, CF, SF, A],
  [("duplicate detection and remapping", CS + " ColourSet::new, remap_indices"), ("per-pixel index remapping", CB + " write3, write4")],
  ["Format::compress_block_masked then Format::decompress_block"], hook=HOOK)
p("C17", "Parallel and sequential builds give identical results",
  """With the rayon feature, compressing or decompressing any image gives byte for byte the result of the sequential build, whatever the
  number of threads and their scheduling.""",
  ["schedules", "inputs", "configurations"], "all images, formats, parameters, buffer sizes, thread counts and interleavings",
  "single-block images give the thread pool nothing to reorder, and the two builds are never compared", [L],
  [("disjoint output rows, read-only inputs", L + " compress, decompress (par_chunks_mut)")], ["Format::compress", "Format::decompress"])
p("C18", "The command line tool labels DDS files with the format it wrote",
  """A file compressed by the command line tool with any of the five formats carries the DXGI format of that very format (sRGB variants for
  BC1 to BC3, UNORM for BC4 and BC5), and reading the label back selects the same format again, as do the legacy DXT1, DXT3 and DXT5
  labels for BC1, BC2 and BC3. The speed, balanced and quality profiles select range fit, cluster fit and iterative cluster fit.""",
  ["configurations"], "all five formats, all DXGI and D3D labels, all profiles", "the command line has one test, of its argument parser",
  ["cli/src/main.rs"], [("format tables", "cli/src/main.rs format_to_dxgiformat, dxgiformat_to_format, d3dformat_to_format, Into impls")],
  ["DDS header written by `texpresso compress`", "`texpresso decompress`"])
p("C19", "Alpha weighting changes nothing for opaque blocks",
  """If all visible pixels of a BC1, BC2 or BC3 block have alpha 255, the encoded bytes are the same with and without colour weighting by
  alpha, for every algorithm and weight vector.""",
  ["inputs", "configurations"], "all opaque blocks, masks, formats, algorithms and weights", "no test switches alpha weighting on", [CS],
  [("weight of an opaque pixel is exactly 1", CS + " ColourSet::new")], ["Format::compress_block_masked"], hook=HOOK)
p("C20", "Images reach the compressor with every pixel intact",
  """Loading a PNG or JPEG file for compression yields one RGBA pixel per image pixel in row order: grey values are copied to red, green and
  blue, missing alpha becomes 255, and present alpha is kept.""",
  ["inputs"], "all grey, grey+alpha, RGB and RGBA images of any size", "there is no test of image loading",
  ["cli/src/image/png.rs", "cli/src/image/jpeg.rs"], [("expansion to RGBA", "cli/src/image/png.rs read, cli/src/image/jpeg.rs read")],
  ["input of Format::compress in `texpresso compress`"])
p("C21", "Distinct colours are not collapsed when the format can hold both",
  """A block whose used pixels have exactly two opaque colours, both representable in 5:6:5 and with green levels that are equal or at
  least two apart, decodes exactly with range fit and any colour weights between 1/16 and 16.""",
  ["inputs", "configurations"], "all such pairs of 5:6:5 colours, all arrangements, all masks, all such weights",
  "the tests use one coloured image", [RF, "lib/src/math.rs"],
  [("principal axis by power iteration", "lib/src/math.rs Sym3x3::principle_component"), ("extreme points", RF + " RangeFit::new"), ("nearest code", RF + " compression_helper")],
  ["Format::compress_block_masked then Format::decompress_block"])
p("C22", "The command line tool converts whole images",
  """`texpresso compress` turns a PNG or JPEG file, told apart by the file name extension in any case, into a DDS file of one 2D image with the
  image's width and height whose data are the library's compression of its pixels with the algorithm of the profile, the colour weights
  given (the perceptual ones if none are; any number but three is refused) and alpha weighting exactly when asked for. `texpresso
  decompress` turns a DDS file into an 8-bit RGBA PNG of the same size holding the library's decompression of its data. The result
  goes to the path given with -o, otherwise into the working directory under the input's file name with the extension dds or png.""",
  ["inputs", "configurations"], "all images, option combinations, file names and output paths",
  "the only test of the tool is of its argument parser", ["cli/src/main.rs", "cli/src/image/png.rs"],
  [("parameters, output path, header", "cli/src/main.rs main, compress_file, decompress_file"), ("PNG output", "cli/src/image/png.rs write")],
  ["file written by `texpresso compress`", "file written by `texpresso decompress`"])

p("C23", "Range fit gives every pixel the nearest colour of its palette",
  """With the RangeFit algorithm and colour weights between 1/16 and 16, in every BC1, BC2 or BC3 block with at least two distinct used colours
  (pixels are used when visible and, for BC1, opaque) each used pixel decodes to the opaque palette entry of its block nearest to its colour,
  up to rounding: its distance (the length of the difference of the red, green and blue values, each multiplied by its channel's weight)
  exceeds that of any other opaque entry by at most 3 times the length of the weight vector.""",
  ["inputs", "configurations"], "all blocks, masks and such weights, with and without alpha weighting",
  "the tests compare three encodings, all with one weight vector", [RF, CB, CS],
  [("nearest code", RF + " compression_helper"), ("codes", RF + " compress3, compress4"), ("index order", CB + " write3, write4")],
  ["Format::compress_block_masked(RangeFit) then Format::decompress_block"], hook=HOOK)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
