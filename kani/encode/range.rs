// RangeFit by its contract (see root.rs): its ends stay what they are, x == 0 and x == 1 here;
// which colours those stand for is decided in ColourSet::new's stub.
use super::*;

pub(crate) fn any_fit<'a>(colourset: &'a ColourSet, format: Format, weights: [f32; 3]) -> RangeFit<'a>
where
    'a: 'a,
{
    let best_compressed = crate::verif::start(1, true, crate::verif::moderate(weights));
    RangeFit { colourset, format, weights: Vec3::new(0.0, 0.0, 0.0), start: Vec3::new(0.0, 0.0, 0.0), end: Vec3::new(1.0, 0.0, 0.0), indices: [0; 16], best_error: 0.0, best_compressed }
}
pub(crate) fn op3<'a>(f: &mut RangeFit<'a>)
where
    'a: 'a,
{
    if let Some(idx) = crate::verif::pass(3, f.colourset, 2) {
        colourblock::write3(&f.start, &f.end, &idx, &mut f.best_compressed);
    }
    unsafe { crate::verif::KEPT = f.best_compressed };
}
pub(crate) fn op4<'a>(f: &mut RangeFit<'a>)
where
    'a: 'a,
{
    if let Some(idx) = crate::verif::pass(4, f.colourset, 3) {
        colourblock::write4(&f.start, &f.end, &idx, &mut f.best_compressed);
    }
    unsafe { crate::verif::KEPT = f.best_compressed };
}
