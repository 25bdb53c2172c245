// The weakest contract of SingleColourFit: its block is any 8 bytes.
use super::*;

pub(crate) fn any_fit<'a>(colourset: &'a ColourSet, format: Format) -> SingleColourFit<'a>
where
    'a: 'a,
{
    SingleColourFit {
        colourset,
        format,
        start: Vec3::new(kani::any(), kani::any(), kani::any()),
        end: Vec3::new(kani::any(), kani::any(), kani::any()),
        index: kani::any(),
        error: kani::any(),
        best_error: kani::any(),
        best_compressed: kani::any(),
    }
}
pub(crate) fn havoc<'a>(f: &mut SingleColourFit<'a>)
where
    'a: 'a,
{
    f.best_compressed = kani::any();
}
