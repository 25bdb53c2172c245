// The weakest contract of ClusterFit: its block is any 8 bytes.
use super::*;

pub(crate) fn any_fit<'a>(colourset: &'a ColourSet, format: Format, weights: ColourWeights, iterate: bool) -> ClusterFit<'a>
where
    'a: 'a,
{
    let v = Vec4::new(0.0, 0.0, 0.0, 0.0);
    ClusterFit {
        colourset,
        format,
        weights: Vec4::new(weights[0], weights[1], weights[2], 1.0),
        num_iterations: if iterate { MAX_ITERATIONS } else { 1 },
        principle: Vec3::new(kani::any(), kani::any(), kani::any()),
        order: [[0u8; 16]; MAX_ITERATIONS],
        points_weights: [v; 16],
        xsum_wsum: v,
        best_error: v,
        best_compressed: kani::any(),
    }
}
pub(crate) fn havoc<'a>(f: &mut ClusterFit<'a>)
where
    'a: 'a,
{
    f.best_compressed = kani::any();
}
