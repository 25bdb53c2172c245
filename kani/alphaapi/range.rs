// The weakest contract of RangeFit: its block is any 8 bytes.
use super::*;

pub(crate) fn any_fit<'a>(colourset: &'a ColourSet, format: Format, weights: ColourWeights) -> RangeFit<'a>
where
    'a: 'a,
{
    RangeFit {
        colourset,
        format,
        weights: Vec3::new(weights[0], weights[1], weights[2]),
        start: Vec3::new(kani::any(), kani::any(), kani::any()),
        end: Vec3::new(kani::any(), kani::any(), kani::any()),
        indices: kani::any(),
        best_error: kani::any(),
        best_compressed: kani::any(),
    }
}
pub(crate) fn havoc<'a>(f: &mut RangeFit<'a>)
where
    'a: 'a,
{
    f.best_compressed = kani::any();
}
