// pack_565 by its contract: some 16-bit value (the writers themselves are the real code); for the
// range fit (harness c13), the levels of the two ends
use super::*;
pub(crate) static mut ENDS: Option<(u16, u16)> = None;
pub(crate) fn pack_any(v: &Vec3) -> u16 {
    match unsafe { ENDS } {
        Some((a, b)) => if v.x() == 0.0 { a } else { b },
        None => kani::any(),
    }
}
