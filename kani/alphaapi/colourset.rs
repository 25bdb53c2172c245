// The weakest contract of ColourSet::new: any set.
use super::*;

pub(crate) fn any_set(_rgba: &[[u8; 4]; 16], _mask: u32, _format: Format, _alpha_weighted: bool) -> ColourSet {
    let count: usize = kani::any();
    kani::assume(count <= 16);
    ColourSet {
        count,
        points: [Vec3::new(0f32, 0f32, 0f32); 16],
        weights: [0f32; 16],
        remap: kani::any(),
        transparent: kani::any(),
    }
}
