"""What decides each property: harnesses, bounds, trusted base."""
import rayon_runs
import static_checks as st

FMT = {"Bc1": 1, "Bc2": 2, "Bc3": 3, "Bc4": 4, "Bc5": 5}


def dec_layout(fmt, n):
    def f(vals):
        b = vals[:n] + [0] * (16 - n)
        return "dec fmt=%d block=%s" % (FMT[fmt], "".join("%02x" % x for x in b))
    return f


def k(group, name, what, mod="", **kw):
    return dict(group=group, name=(mod + "::" if mod else "") + "verif::" + name, what=what, **kw)


T_KANI = ["Kani 0.68 / CBMC 6.11 translation of MIR and SAT back end (minisat/cadical/kissat)",
          "rustc MIR semantics; memory-safety checks off because the library has no unsafe code (checked mechanically every run)",
          "the reference definition spec/spec.rs of the block formats"]

PROPS = {}
NOT_APPLICABLE = {}

DEC = dict(technique="modular contract proof (Kani/CBMC) of the real decoders against the format definition, all blocks",
           note="Proved for every block: the harness asserts the decoder's postcondition over symbolic block bytes, loops fully unwound "
                "(their bounds are the constants 4 and 16, unwinding assertions included). Trusts Kani/CBMC, rustc and spec/spec.rs.")

PROPS["C01"] = dict(
    title="BC1 blocks decode to the palette the format defines",
    level="proof", **DEC,
    functions=["Format::decompress_block (Bc1)", "colourblock::decompress", "colourblock::unpack_565"],
    trusted=T_KANI,
    static=[st.no_unsafe],
    kani=[k("decode", "c01_bc1", "for all 2^64 blocks, every pixel and channel equals the format's palette entry",
            layout=dec_layout("Bc1", 8))],
)
PROPS["C02"] = dict(
    title="BC2 and BC3 blocks decode to the colours and alpha the format defines",
    level="proof", **DEC,
    functions=["Format::decompress_block (Bc2, Bc3)", "colourblock::decompress", "alpha::decompress_bc2", "alpha::decompress_bc3"],
    trusted=T_KANI,
    static=[st.no_unsafe],
    kani=[k("decode", "c02_bc2", "for all 2^128 BC2 blocks, colour and 4-bit alpha of every pixel", layout=dec_layout("Bc2", 16)),
          k("decode", "c02_bc3", "for all 2^128 BC3 blocks, colour and gradient alpha of every pixel", layout=dec_layout("Bc3", 16))],
)
PROPS["C03"] = dict(
    title="BC4 and BC5 blocks decode to the gradients the format defines",
    level="proof", **DEC,
    functions=["Format::decompress_block (Bc4, Bc5)", "alpha::decompress_bc3"],
    trusted=T_KANI,
    static=[st.no_unsafe],
    kani=[k("decode", "c03_bc4", "for all 2^64 BC4 blocks", layout=dec_layout("Bc4", 8)),
          k("decode", "c03_bc5", "for all 2^128 BC5 blocks", layout=dec_layout("Bc5", 16))],
)

def ka(name, what, **kw):
    return k("alpha", name, what, mod="alpha", timeout=400, **kw)


FIT = dict(unit="fit_codes", what="fit_codes: index in range and nearest for visible pixels, 0 for masked; result is the summed squared error; "
           "depends on visible values, low mask bits and codes only; lemmas sq_abs, pick_nearest, fit_frame, esum_mono", min_functions=17)
A_CHOSEN = ka("bc3_chosen", "compress_bc3 stores a fit of least error: pixels decode to the codes selected, and the stored palette is that fit's codebook")
A_FRAME = ka("bc3_frame", "compress_bc3 depends on the visible values of its channel and the low 16 mask bits only, and writes every byte")
A_API45 = k("alphaapi", "api_bc4_bc5", "compress_block_masked: BC4 is the gradient block of red, BC5 of red then green")
A_API23 = k("alphaapi", "api_bc2_bc3", "compress_block_masked: the first half of BC2/BC3 is the alpha block, untouched by the colour encoder")
T_ALPHA = T_KANI + ["Verus 0.2026.09 and Z3 (fit_codes)", "vx's rewrites W1-W5 of fit_codes' loops (for -> while, i32::from -> as)",
                    "the fit_codes contract as stated to Verus (verus/fit_codes.vt) and to Kani (kani/alpha/alpha.rs, fit_contract / fit_memo) agree (by reading)"]
GRAD = dict(technique="contracts: Verus on fit_codes (extracted every run), Kani on compress_bc3 and the dispatch with callees replaced by their contracts")
PROPS["C09"] = dict(
    title="BC2 alpha is the nearest 4-bit level for every pixel", level="proof",
    technique="contract proof (Kani/CBMC) of compress_bc2 and of the format dispatch with callees replaced by their contracts",
    note="Proved for all pixels and masks, f32 arithmetic bit-precise. Composition: compress_bc2's contract, the dispatch, and the BC2 decoder proved under C02.",
    functions=["alpha::compress_bc2", "Format::compress_block_masked (Bc2 dispatch)", "math::f32_to_i32_clamped"],
    trusted=T_KANI, static=[st.no_unsafe],
    kani=[ka("bc2_nearest", "every visible pixel's nibble is the nearest level, masked pixels get 0"), A_API23,
          k("decode", "c02_bc2", "decoder side: alpha is the nibble times 17", layout=dec_layout("Bc2", 16))])
PROPS["C10"] = dict(
    title="Gradient channels store the palette entry nearest to each value", level="proof", **GRAD,
    note="Proved for all values and masks by composition: fit_codes picks a nearest code (Verus), the block stores that fit and its codebook (bc3_chosen), "
         "so no palette entry is nearer; dispatch by api_*. The composition step itself is argued in DESIGN.md; thorough also proves bc3_nearest end to end.",
    functions=["alpha::fit_codes", "alpha::compress_bc3", "alpha::fix_range", "alpha::write_alpha_block/5/7", "Format::compress_block_masked"],
    trusted=T_ALPHA, static=[st.no_unsafe], verus=[FIT],
    kani=[A_CHOSEN, A_API45, A_API23, ka("bc3_nearest", "end to end: no entry of the stored palette is nearer than the decoded one", thorough=True)])
PROPS["C11"] = dict(
    title="Gradient palettes are chosen well: extremes exact, narrow ranges lossless", level="proof", **GRAD,
    note="Proved for all values and masks by composition: some fit offers codes at least as near as each reference ramp for every visible value (bc3_ramp7, bc3_ramp5, "
         "bc3_narrow), hence costs at most as much (esum_mono, Verus), and a fit of least error is stored (bc3_chosen).",
    functions=["alpha::fit_codes", "alpha::compress_bc3", "alpha::fix_range", "alpha::write_alpha_block/5/7", "Format::compress_block_masked"],
    trusted=T_ALPHA, static=[st.no_unsafe], verus=[FIT],
    kani=[A_CHOSEN, ka("bc3_exact", "visible 0 and 255 decode exactly"), ka("bc3_ramp7", "some fit is at least as good as the full ramp"),
          ka("bc3_ramp5", "some fit is at least as good as the inner ramp with 0 and 255"), ka("bc3_narrow", "a block spanning at most 7 levels has a lossless fit"),
          A_API45, A_API23])

T_VERUS = ["Verus 0.2026.09 and Z3", "vx, the mechanical extraction (syn): its rewrites W1-W7 are listed in DESIGN.md"]
IMG = dict(unit="image", min_functions=65, what="num_blocks, block_size, compressed_size, decompress, compress and their row and block closures, every width and height, "
           "every buffer length; block codecs uninterpreted")
T_IMG = T_VERUS + ["the standard library contracts of chunks_mut / enumerate / take / for_each, as encoded by rewrite W6 (chunk k is bytes k*n .. min((k+1)*n, len), in order)",
                   "images whose padded pixel area exceeds isize::MAX / 64 are excluded (they cannot exist in memory)"]
IMGT = "deductive proof (Verus) of the image functions, extracted from /repo on every run, against whole-image contracts"
PROPS["C04"] = dict(
    title="Decompressing an image puts every decoded pixel at its place", level="proof", technique=IMGT,
    note="Proved for every format, width, height and buffer: loop invariants over rows, blocks and pixels; no bound. decompress_block is uninterpreted (its own properties are C01-C03).",
    functions=["num_blocks", "Format::block_size", "Format::decompress and its row closure"],
    trusted=T_IMG + ["decompress_block returns 16 pixels as a function of the block bytes (C01-C03, C14)"], static=[st.no_unsafe, st.deterministic], verus=[IMG])
A_ENC = "compress_block_masked is a function of the visible pixels, the low 16 mask bits, format and parameters, and fills the block (proved as C07 and C14)"
PROPS["C05"] = dict(
    title="Compressing an image encodes each 4x4 block from exactly its own pixels", level="proof", technique=IMGT,
    note="Proved for every format, parameters, width, height and buffer by loop invariants over rows, blocks and pixels; compress_block_masked is uninterpreted and its frame is C07.",
    functions=["num_blocks", "Format::block_size", "Format::compressed_size", "Format::compress, its row closure and its block closure"],
    trusted=T_IMG + [A_ENC], static=[st.no_unsafe, st.deterministic], verus=[IMG])
PROPS["C06"] = dict(
    title="Buffer sizes are exact: nothing missing, nothing written past the end", level="proof", technique=IMGT,
    note="Proved for every format, size and buffer length: postconditions of compressed_size, compress and decompress (bytes behind the image unchanged; a refusal happens before any write; "
         "truncated input can only panic). That a slice expression out of range panics is the language's contract.",
    functions=["num_blocks", "Format::block_size", "Format::compressed_size", "Format::decompress and its closure", "Format::compress and its closures"],
    trusted=T_IMG + [A_ENC], static=[st.no_unsafe], verus=[IMG])
PROPS["C17"] = dict(
    title="Parallel and sequential builds give identical results", level="proof", technique=IMGT + "; both feature variants extracted and required to be the same code over (par_)chunks_mut",
    note="The contracts determine every output byte, and the row closures are proved from the same text for both builds; rows are disjoint chunks handed out by rayon, whose own contract is assumed. "
         "The absence of shared mutable state is scanned. A bounded run of both builds accompanies it.",
    functions=["Format::decompress and its row closure", "Format::compress, its row closure and its block closure"],
    trusted=T_IMG + ["rayon's par_chunks_mut().enumerate().take().for_each() calls the closure once per chunk with the chunk's index (no failing schedule)",
                     "the closures are Fn + Sync and hold no interior mutability (rustc's Send/Sync check, scan:deterministic)", A_ENC],
    static=[st.no_unsafe, st.deterministic, st.one_code], verus=[IMG], rayon=[False, True], native=[rayon_runs.c17])

# ------------------------------------------------------------------ the colour encoder
CS = dict(unit="colourset", min_functions=30, what="ColourSet::new, remap_indices: which pixels are used, which share an entry, points, weights and the transparency flag; "
          "equal visible pixels give equal sets; entry weights stay in (0, 65536]")
FITS = dict(unit="fits", min_functions=75, what="RangeFit and ClusterFit: constructors, compression_helper, construct_ordering, compress3, compress4: no panic, indices in range and equal for equal "
            "entries, unused pixels on index 3, a block is written by the first pass when the weights are moderate; the format is never looked at")
SINGLE = dict(unit="single", min_functions=50, what="SingleColourFit: new, compute_endpoints, compress3, compress4 keep the best of what the tables offer; with the table facts: no encoding of the "
              "uniform block on an endpoint, blend or average is nearer")
STUBS_NOTE = "the facts used as stubs in Kani (kani/frame, kani/encode) say the same as the Verus contracts they cite (by reading)"
T_COL = T_KANI + T_VERUS + [STUBS_NOTE, "IEEE operations of the target are deterministic (Rust leaves NaN payloads and the sign of min/max of zeros open)"]
FRAME = "compress_block_masked on two related inputs, callees replaced by their frame contracts: "


def kf(name, what):
    return k("frame", name, FRAME + what, timeout=400)


def ke(name, what):
    return k("encode", name, "compress_block_masked, ColourFit::compress, remap_indices, write3, write4 (real), other callees replaced by their contracts: " + what, timeout=400)


B2FRAME = ka("bc2_frame", "compress_bc2 depends on the visible alphas and the low 16 mask bits only, and writes every byte")
COLF = ["ColourSet::new", "ColourSet::remap_indices", "RangeFit::new, compression_helper, compress3, compress4", "ClusterFit::new, construct_ordering, compress3, compress4",
        "SingleColourFit::new, compute_endpoints, compress3, compress4", "ColourFit::compress", "Format::compress_block_masked", "Vec3 and Vec4 operations"]
ALPHF = ["alpha::compress_bc2", "alpha::compress_bc3"]
IEEE = [k("ieee", "ieee_" + n, "IEEE fact used by the Verus units, for all floats") for n in
        ("add", "sub", "mul", "div", "trunc", "clamp", "lt_max", "pos_add", "colour", "alpha")]
ORDER = k("order", "comparison", "the ordering used for sorting is a total preorder", mod="colourfit::cluster")
STATS = k("total", "statistics", "weighted_covariance and principle_component never panic", mod="math", timeout=300)
BLK = {n: k("block", n, w, mod="colourblock") for n, w in dict(
    three="write3: three-colour order, every pixel keeps its palette entry, every byte written",
    four="write4: four-colour order or one colour, every pixel keeps its palette entry, every byte written",
    pack_levels="pack_565 of a colour on the grid gives its levels", pack_total="pack_565 never panics",
    decode_total="colour decoding never panics",
    range_levels="an 8-bit colour put on the grid as RangeFit::new does it packs to its nearest levels").items()}
SNG = {n: k("single", n, w, mod="colourfit::single") for n, w in dict(
    table_5_3="LOOKUP_5_3: stored errors are exact and least", table_6_3="LOOKUP_6_3: stored errors are exact and least",
    table_5_4="LOOKUP_5_4: stored errors are exact and least", table_6_4="LOOKUP_6_4: stored errors are exact and least",
    round_trip="conversions of 8-bit values and of levels are exact", clamped="f32_to_i32_clamped stays within its limit").items()}
TECH = "contracts: Verus on the colour set and the three fits (extracted every run), Kani on the dispatch, block writers, alpha coders and tables with callees replaced by their contracts"
DET = "functions without mutable statics, unsafe code or interior mutability are functions of their arguments (scan:deterministic, scan:no-unsafe)"

PROPS["C07"] = dict(
    title="Masked-out pixels never influence the encoded block", level="proof", technique=TECH,
    note="Proved for all pixels, masks, weights and replacement values: the set is a function of the visible pixels (Verus), so are the alpha blocks (bc2_frame, bc3_frame), "
         "and the dispatch passes nothing else on (masked). That a pure function's result depends only on its arguments is the language's.",
    functions=COLF + ALPHF + ["alpha::fit_codes"], trusted=T_COL + [DET], static=[st.no_unsafe, st.deterministic], verus=[FIT, CS, FITS, SINGLE],
    kani=[kf("masked", "hidden pixels, mask bits above 15 and the old buffer do not reach the block"), A_FRAME, B2FRAME, BLK["three"], BLK["four"]])
PROPS["C08"] = dict(
    title="BC1 keeps the binary alpha of every pixel", level="proof", technique=TECH,
    note="Proved for all pixels and masks and all weights in [0, 1]: the fits write a block whose unused pixels have index 3 (Verus, with IEEE magnitude facts proved by Kani), the writers keep it "
         "(block), the driver picks three colours when a visible pixel is transparent (encode).",
    functions=COLF + ["colourblock::write3", "colourblock::write4", "math::Sym3x3::weighted_covariance", "math::Sym3x3::principle_component"],
    trusted=T_COL + [DET, "libm::sqrtf, run exhaustively on [0, 65536] (scan:sqrt)", "core sort_unstable_by permutes and does not panic for a total preorder"],
    static=[st.no_unsafe, st.deterministic, st.sqrt], verus=[CS, FITS, SINGLE],
    kani=[ke("c08", "visible alpha below 128 decodes to transparent black, the rest to opaque"), BLK["three"], BLK["four"], ORDER, STATS] + IEEE)
PROPS["C12"] = dict(
    title="Solid-colour blocks are encoded optimally", level="proof", technique=TECH,
    note="Proved for all 2^24 colours and all masks: tables optimal per channel (Kani, all entries against all pairs of levels), the fit keeps the best of what they offer and no uniform encoding is "
         "nearer (Verus solid_one, solid_two), the dispatch sends one-colour blocks there (encode c12), writers and decoders keep the colour (block, C01, C02).",
    functions=["SingleColourFit::new, compute_endpoints, compress3, compress4", "LOOKUP_5_3, LOOKUP_6_3, LOOKUP_5_4, LOOKUP_6_4", "ColourSet::new", "colourblock::write3, write4, pack_565",
               "ColourFit::compress", "Format::compress_block_masked", "math::f32_to_i32_clamped"],
    trusted=T_COL + [DET], static=[st.no_unsafe], verus=[CS, SINGLE],
    kani=[ke("c12", "a block of one used colour goes to the single colour fit, passes in order, its block is stored")] + [BLK[n] for n in ("three", "four", "pack_levels")] + list(SNG.values())
    + [k("decode", "c01_bc1", "BC1 decoder", layout=None), k("decode", "c02_bc3", "four-colour decoder of BC2 and BC3", layout=None)])
PROPS["C13"] = dict(
    title="Range fit never leaves the colour range of the block", level="proof", technique=TECH,
    note="Proved for all pixels, masks and weights of magnitude up to 2^20: the ends are entries of the set put on the grid (Verus range_end), entries are used pixels (set_facts), the grid is the "
         "nearest level (range_levels), the first pass writes a block of those ends (Verus), and every palette entry of such a block stays between the rounded extremes (encode c13).",
    functions=["RangeFit::new, compression_helper, compress3, compress4", "ColourSet::new", "colourblock::write3, write4, pack_565", "ColourFit::compress", "Format::compress_block_masked"],
    trusted=T_COL + [DET, "libm::sqrtf, run exhaustively on [0, 65536] (scan:sqrt)"], static=[st.no_unsafe, st.sqrt], verus=[CS, FITS],
    kani=[ke("c13", "every used pixel decodes between the rounded extremes of its channel"), BLK["range_levels"], BLK["three"], BLK["four"], STATS,
          k("decode", "c01_bc1", "BC1 decoder", layout=None), k("decode", "c02_bc3", "four-colour decoder of BC2 and BC3", layout=None)] + IEEE)
PROPS["C14"] = dict(
    title="Block encoding and decoding are total and fully determined by their input", level="proof", technique=TECH,
    note="Proved for all inputs, NaN and infinities included: Verus discharges every index, overflow and precondition of the colour set and the fits, Kani the panic checks of the rest; "
         "independence of the old buffer is the frame obligation. Panics inside core's sort and libm are excluded by assumption.",
    functions=COLF + ALPHF + ["alpha::decompress_bc2, decompress_bc3", "colourblock::decompress, write3, write4, pack_565", "math::*"],
    trusted=T_COL + [DET, "core sort_unstable_by does not panic for a total preorder", "libm::sqrtf does not panic"],
    static=[st.no_unsafe, st.deterministic], verus=[FIT, CS, FITS, SINGLE],
    kani=[kf("masked", "the result does not depend on the old buffer"), ke("c14", "no panic for any pixels, mask, algorithm and weights"), A_FRAME, B2FRAME, A_CHOSEN,
          ka("alpha_decode_total", "decompress_bc2, decompress_bc3 never panic"), ORDER, STATS, SNG["clamped"]] + list(BLK.values()))
PROPS["C15"] = dict(
    title="Channels are encoded independently of each other", level="proof", technique=TECH,
    note="Proved for all pixels, masks and parameters as two-run contracts: the dispatch with callees as functions of what they are given (alpha_halves, colour_half), the callees' own frames (bc2_frame, "
         "bc3_frame, Verus alike_sets; the fits never look at the format).",
    functions=COLF + ALPHF, trusted=T_COL + [DET], static=[st.no_unsafe, st.deterministic], verus=[FIT, CS, FITS, SINGLE],
    kani=[kf("alpha_halves", "gradient halves are the BC4 block of their channel; BC2's alpha half depends on alpha only"),
          kf("colour_half", "BC2 and BC3 share the colour encoding; alpha reaches it only when asked to"), A_FRAME, B2FRAME, A_API45, A_API23])
PROPS["C16"] = dict(
    title="Equal pixels stay equal", level="proof", technique=TECH,
    note="Proved for all pixels, masks, weights and algorithms: equal used pixels share an entry of the set (Verus), equal entries get equal indices (Verus fits, single), the writers keep indices "
         "pixel by pixel (encode c16); alpha halves: bc2_equal, bc3_equal, fit_codes' equal_values.",
    functions=COLF + ALPHF + ["alpha::fit_codes", "colourblock::write3, write4"], trusted=T_COL + [DET], static=[st.no_unsafe, st.deterministic], verus=[FIT, CS, FITS, SINGLE],
    kani=[ke("c16", "equal colours (both opaque or both transparent for BC1) decode to equal colours"), ka("bc3_equal", "equal values of a gradient channel decode alike"),
          ka("bc2_equal", "equal alphas of BC2 decode alike"), A_API45, A_API23])
REAL = ["the definition of IEEE 754 single precision as rounded real arithmetic (verus/inc/real.vti: relative error at most 2^-24, or absolute error below 10^-40; exact where the result is representable; sums and products do not depend on the order of their operands, NaN payloads apart)"]
PROPS["C21"] = dict(
    title="Distinct colours are not collapsed when the format can hold both", level="proof", technique=TECH,
    note="Proved for all pairs of 5:6:5 colours, arrangements, masks and weights from 1/16 to 16: the entries are the two colours with weights that are roots of counts (Verus two_colours, opaque_counts), "
         "the covariance is that of their difference and the power iteration follows it (unit axis, rounding errors included), so the ends of the range are the two colours and every pixel is nearest to "
         "its own (unit pair; the levels' distances by Kani for all levels), and writers and dispatch keep it (encode c21).",
    functions=["Sym3x3::weighted_covariance", "Sym3x3::principle_component", "Sym3x3::new", "RangeFit::new, compression_helper, compress3, compress4", "ColourSet::new", "Vec3 and Vec4 operations",
               "colourblock::write3, write4, pack_565", "ColourFit::compress", "Format::compress_block_masked"],
    trusted=T_COL + REAL + [DET, "libm::sqrtf, run on every float from 1 to 16 (scan:sqrt)"], static=[st.no_unsafe, st.sqrt],
    verus=[CS, FITS, dict(unit="pair", min_functions=75, what="RangeFit on two colours of the grid: the ends are the two colours, every pixel takes its own end"),
           dict(unit="axis", min_functions=150, what="weighted_covariance of two points is the product of their difference with itself; principle_component follows that difference; every rounding error bounded")],
    kani=[ke("c21", "a block of two such colours decodes to them"), k("ieee", "ieee_pair_five", "5-bit channels: own end close, any other code farther, all levels"),
          k("ieee", "ieee_pair_six", "6-bit channel: the same for levels at least two apart", timeout=400), k("ieee", "ieee_order", "comparisons are antisymmetric"),
          k("total", "sum_numbers", "sums of f32 start at zero and add in order", mod="math", timeout=300), k("total", "sum_vectors", "sums of Vec3 start at zero and add in order", mod="math", timeout=300),
          k("frame", "div256", "f32::from(255) + 1 over 256 is exactly 1", mod="colourset"),
          BLK["range_levels"], BLK["three"], BLK["four"], STATS, k("decode", "c01_bc1", "BC1 decoder", layout=None), k("decode", "c02_bc3", "four-colour decoder of BC2 and BC3", layout=None)] + IEEE)
PROPS["C23"] = dict(
    title="Range fit gives every pixel the nearest colour of its palette", level="proof", technique=TECH,
    note="Proved for all pixels, masks and weights from 1/16 to 16: every entry of the set takes the index of a code no farther than any other (Verus compression_helper, unit near), rounding and the "
         "decoded palette's own rounding cost at most 3 lengths of the weights (within, over the reals; codes against palette entries by Kani for all levels), and dispatch, writers and decoder keep index and palette (encode c23).",
    functions=["RangeFit::compression_helper, compress3, compress4", "RangeFit::new", "ColourSet::new", "Vec3 operations", "colourblock::write3, write4, pack_565", "ColourFit::compress", "Format::compress_block_masked"],
    trusted=T_COL + REAL + [DET, "libm::sqrtf, run exhaustively on [0, 65536] (scan:sqrt)"], static=[st.no_unsafe, st.sqrt],
    verus=[CS, FITS, dict(unit="near", min_functions=110, what="RangeFit on any set: each entry takes a nearest code; in levels of the palette, nearest up to 3 lengths of the weights")],
    kani=[ke("c23", "the palette is that of the ends, each used pixel decodes to the code its entry took"), k("ieee", "ieee_onto", "ends are levels of the grid, for all 256 values"),
          k("ieee", "ieee_code_five", "5-bit channels: codes against palette entries, all levels"), k("ieee", "ieee_code_six", "6-bit channel: the same"),
          BLK["range_levels"], BLK["three"], BLK["four"], STATS, k("decode", "c01_bc1", "BC1 decoder", layout=None), k("decode", "c02_bc3", "four-colour decoder of BC2 and BC3", layout=None)] + IEEE)
PROPS["C19"] = dict(
    title="Alpha weighting changes nothing for opaque blocks", level="proof", technique=TECH,
    note="Proved for all opaque blocks, masks, formats and weights: 256/256 is exactly 1 (div256), so the sets agree (Verus opaque_weights), and the dispatch passes nothing else on (opaque).",
    functions=COLF, trusted=T_COL + [DET], static=[st.no_unsafe, st.deterministic], verus=[CS, FITS, SINGLE],
    kani=[kf("opaque", "with and without alpha weighting, all visible pixels opaque"), k("frame", "div256", "f32::from(255) + 1 over 256 is exactly 1", mod="colourset")])

# ------------------------------------------------------------------ the command line tool
import cli_runs
T_CLI = T_VERUS + ["vx's rewrites W10, W11, W14 (panics become calls of a diverging function; iterator chains that push pixels become loops; unwrap_or_else becomes a match)",
                   "the decoder, DDS and argument crates and std::fs behave as the contracts in verus/inc/cli_world.vti, verus/convert.vt and verus/loaders.vt say (external; exercised by the accompanying run of the real program)"]
PROPS["C18"] = dict(
    title="The command line tool labels DDS files with the format it wrote", level="proof",
    technique="deductive proof (Verus) of the tool's mapping functions, compress_file, decompress_file and main, extracted from /repo on every run; external crates by contract",
    note="Proved for all formats, labels, profiles and options: the label written is the label of the format the data was compressed with, the tables are inverse, profiles select their algorithms. "
         "File, DDS and argument handling are contracts on dependencies, assumed. A bounded run of the real program accompanies it.",
    functions=["format_to_dxgiformat", "dxgiformat_to_format", "d3dformat_to_format", "Into<Algorithm> for Profile", "Into<Format> for CliFormat", "compress_file", "decompress_file", "main"],
    trusted=T_CLI, search=0, static=[], native=[cli_runs.c18],
    verus=[dict(unit="cli", min_functions=24, what="the tool's tables, compress_file, decompress_file and main: the label a run writes and the format, algorithm and label it uses")])
PROPS["C20"] = dict(
    title="Images reach the compressor with every pixel intact", level="proof",
    technique="deductive proof (Verus) of image::png::read and image::jpeg::read, extracted from /repo on every run; decoder crates by contract",
    note="Proved for all sizes and sample values of grey, grey+alpha, RGB and RGBA images; the decoder crates' contracts (8-bit samples after EXPAND and STRIP_16, buffer sizes) are assumed and "
         "exercised by an accompanying bounded run of the real program on all PNG colour types and depths and on JPEG.",
    functions=["image::png::read", "image::jpeg::read"],
    trusted=T_CLI, search=0, static=[], native=[cli_runs.c20],
    verus=[dict(unit="loaders", min_functions=20, what="png::read and jpeg::read: four bytes per pixel in row order, grey copied, missing alpha 255, present alpha kept")])
PROPS["C22"] = dict(
    title="The command line tool converts whole images", level="proof",
    technique="deductive proof (Verus) of main, compress_file, decompress_file and image::png::write, extracted from /repo on every run; external crates by contract",
    note="Proved for all options, paths and images: which decoder reads the input, which parameters the library gets, and what is written where, size and sample format included. The format tables and "
         "loaders are used by their contracts (C18, C20); file system, DDS and PNG crates and the argument parser by assumed contracts, exercised by an accompanying bounded run of the real program.",
    functions=["main", "compress_file", "decompress_file", "image::png::write"],
    trusted=T_CLI, search=0, static=[], native=[cli_runs.c22],
    verus=[dict(unit="convert", min_functions=23, what="main, compress_file, decompress_file and png::write: parameters, sizes, output paths and sample format of a run")])
