// RangeFit by its frame contract: a function of what it was given (see root.rs).
use super::*;

pub(crate) fn memo_fit<'a>(colourset: &'a ColourSet, format: Format, weights: ColourWeights) -> RangeFit<'a>
where
    'a: 'a,
{
    let best_compressed = crate::verif::fit_new(1, colourset, format == Format::Bc1, [weights[0].to_bits(), weights[1].to_bits(), weights[2].to_bits()]);
    RangeFit { colourset, format, weights: Vec3::new(0.0, 0.0, 0.0), start: Vec3::new(0.0, 0.0, 0.0), end: Vec3::new(0.0, 0.0, 0.0), indices: [0; 16], best_error: 0.0, best_compressed }
}
pub(crate) fn op3<'a>(f: &mut RangeFit<'a>)
where
    'a: 'a,
{
    f.best_compressed = crate::verif::fit_op(3);
}
pub(crate) fn op4<'a>(f: &mut RangeFit<'a>)
where
    'a: 'a,
{
    f.best_compressed = crate::verif::fit_op(4);
}
