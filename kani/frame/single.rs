// SingleColourFit by its frame contract: a function of what it was given (see root.rs).
use super::*;

pub(crate) fn memo_fit<'a>(colourset: &'a ColourSet, format: Format) -> SingleColourFit<'a>
where
    'a: 'a,
{
    let best_compressed = crate::verif::fit_new(0, colourset, format == Format::Bc1, [0; 3]);
    SingleColourFit { colourset, format, start: Vec3::new(0.0, 0.0, 0.0), end: Vec3::new(0.0, 0.0, 0.0), index: 0, error: 0, best_error: 0, best_compressed }
}
pub(crate) fn op3<'a>(f: &mut SingleColourFit<'a>)
where
    'a: 'a,
{
    f.best_compressed = crate::verif::fit_op(3);
}
pub(crate) fn op4<'a>(f: &mut SingleColourFit<'a>)
where
    'a: 'a,
{
    f.best_compressed = crate::verif::fit_op(4);
}
