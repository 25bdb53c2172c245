// ClusterFit by its frame contract: a function of what it was given (see root.rs).
use super::*;

pub(crate) fn memo_fit<'a>(colourset: &'a ColourSet, format: Format, weights: ColourWeights, iterate: bool) -> ClusterFit<'a>
where
    'a: 'a,
{
    let best_compressed = crate::verif::fit_new(if iterate { 3 } else { 2 }, colourset, format == Format::Bc1, [weights[0].to_bits(), weights[1].to_bits(), weights[2].to_bits()]);
    ClusterFit { colourset, format, weights: Vec4::new(0.0, 0.0, 0.0, 0.0), num_iterations: 0, principle: Vec3::new(0.0, 0.0, 0.0), order: [[0; 16]; MAX_ITERATIONS], points_weights: [Vec4::new(0.0, 0.0, 0.0, 0.0); 16], xsum_wsum: Vec4::new(0.0, 0.0, 0.0, 0.0), best_error: Vec4::new(0.0, 0.0, 0.0, 0.0), best_compressed }
}
pub(crate) fn op3<'a>(f: &mut ClusterFit<'a>)
where
    'a: 'a,
{
    f.best_compressed = crate::verif::fit_op(3);
}
pub(crate) fn op4<'a>(f: &mut ClusterFit<'a>)
where
    'a: 'a,
{
    f.best_compressed = crate::verif::fit_op(4);
}
