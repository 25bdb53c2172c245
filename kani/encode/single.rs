// SingleColourFit by its contract (see root.rs).
use super::*;

pub(crate) fn any_fit<'a>(colourset: &'a ColourSet, format: Format) -> SingleColourFit<'a>
where
    'a: 'a,
{
    let best_compressed = crate::verif::start(0, colourset.count() == 1, true);
    SingleColourFit { colourset, format, start: Vec3::new(0.0, 0.0, 0.0), end: Vec3::new(0.0, 0.0, 0.0), index: 0, error: 0, best_error: 0, best_compressed }
}
pub(crate) fn op3<'a>(f: &mut SingleColourFit<'a>)
where
    'a: 'a,
{
    if let Some(idx) = crate::verif::pass(3, f.colourset, 2) {
        colourblock::write3(&Vec3::new(0.0, 0.0, 0.0), &Vec3::new(0.0, 0.0, 0.0), &idx, &mut f.best_compressed);
    }
    unsafe { crate::verif::KEPT = f.best_compressed };
}
pub(crate) fn op4<'a>(f: &mut SingleColourFit<'a>)
where
    'a: 'a,
{
    if let Some(idx) = crate::verif::pass(4, f.colourset, 3) {
        colourblock::write4(&Vec3::new(0.0, 0.0, 0.0), &Vec3::new(0.0, 0.0, 0.0), &idx, &mut f.best_compressed);
    }
    unsafe { crate::verif::KEPT = f.best_compressed };
}
