// ClusterFit by its contract (see root.rs).
use super::*;

pub(crate) fn any_fit<'a>(colourset: &'a ColourSet, format: Format, weights: [f32; 3], _iterate: bool) -> ClusterFit<'a>
where
    'a: 'a,
{
    let best_compressed = crate::verif::start(2, true, colourset.count() >= 1 && crate::verif::moderate(weights));
    ClusterFit { colourset, format, weights: Vec4::new(0.0, 0.0, 0.0, 0.0), num_iterations: 1, principle: Vec3::new(0.0, 0.0, 0.0), order: [[0; 16]; MAX_ITERATIONS], points_weights: [Vec4::new(0.0, 0.0, 0.0, 0.0); 16], xsum_wsum: Vec4::new(0.0, 0.0, 0.0, 0.0), best_error: Vec4::new(0.0, 0.0, 0.0, 0.0), best_compressed }
}
pub(crate) fn op3<'a>(f: &mut ClusterFit<'a>)
where
    'a: 'a,
{
    if let Some(idx) = crate::verif::pass(3, f.colourset, 2) {
        colourblock::write3(&Vec3::new(0.0, 0.0, 0.0), &Vec3::new(0.0, 0.0, 0.0), &idx, &mut f.best_compressed);
    }
    unsafe { crate::verif::KEPT = f.best_compressed };
}
pub(crate) fn op4<'a>(f: &mut ClusterFit<'a>)
where
    'a: 'a,
{
    if let Some(idx) = crate::verif::pass(4, f.colourset, 3) {
        colourblock::write4(&Vec3::new(0.0, 0.0, 0.0), &Vec3::new(0.0, 0.0, 0.0), &idx, &mut f.best_compressed);
    }
    unsafe { crate::verif::KEPT = f.best_compressed };
}
