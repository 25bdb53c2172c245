// Reference definitions of the BCn block formats, written from the format
// documentation (Direct3D 10+ functional specification / S3TC), not from /repo.
// Pure functions, shared by the Kani harness crate (/verif/kani) and by the
// native replay/search crate (/verif/native).

/// 5:6:5 -> 8:8:8 by bit replication, written arithmetically.
pub fn expand565(c: u32) -> [i32; 3] {
    let r = c / 2048;
    let g = (c / 32) % 64;
    let b = c % 32;
    [
        (r * 8 + r / 4) as i32,
        (g * 4 + g / 16) as i32,
        (b * 8 + b / 4) as i32,
    ]
}

/// 8-byte colour block: palette entry `k` (0..=3) as RGBA.
/// `bc1`: the block may switch to the three-colour + transparent palette.
pub fn cpal(b: &[u8], bc1: bool, k: u8) -> [i32; 4] {
    let c0 = b[0] as u32 + 256 * b[1] as u32;
    let c1 = b[2] as u32 + 256 * b[3] as u32;
    let p = expand565(c0);
    let q = expand565(c1);
    let three = bc1 && c0 <= c1;
    let mut o = [0, 0, 0, 255];
    let mut c = 0;
    while c < 3 {
        o[c] = match k {
            0 => p[c],
            1 => q[c],
            2 => {
                if three {
                    (p[c] + q[c]) / 2
                } else {
                    (2 * p[c] + q[c]) / 3
                }
            }
            _ => {
                if three {
                    0
                } else {
                    (p[c] + 2 * q[c]) / 3
                }
            }
        };
        c += 1;
    }
    if three && k == 3 {
        o[3] = 0;
    }
    o
}

/// 8-byte colour block: 2-bit index of pixel `i` (row-major, least significant first).
pub fn cidx(b: &[u8], i: usize) -> u8 {
    (b[4 + i / 4] >> (2 * (i % 4))) & 3
}

/// 8-byte gradient block: 3-bit index of pixel `i`; the 48 index bits are a
/// little-endian bit string starting at byte 2.
pub fn gidx(b: &[u8], i: usize) -> u8 {
    let bit = 3 * i;
    let lo = b[2 + bit / 8] as u32;
    let hi = if 3 + bit / 8 < 8 {
        (b[3 + bit / 8] as u32) << 8
    } else {
        0
    };
    (((lo | hi) >> (bit % 8)) & 7) as u8
}

/// 8-byte gradient block: palette entry `k` (0..=7).
pub fn gpal(b: &[u8], k: u8) -> i32 {
    let a0 = b[0] as i32;
    let a1 = b[1] as i32;
    let k = k as i32;
    if k == 0 {
        a0
    } else if k == 1 {
        a1
    } else if a0 > a1 {
        ((8 - k) * a0 + (k - 1) * a1) / 7
    } else if k == 6 {
        0
    } else if k == 7 {
        255
    } else {
        ((6 - k) * a0 + (k - 1) * a1) / 5
    }
}

/// 8-byte explicit alpha block: 4-bit value of pixel `i`.
pub fn anib(b: &[u8], i: usize) -> u8 {
    (b[i / 2] >> (4 * (i % 2))) & 15
}
