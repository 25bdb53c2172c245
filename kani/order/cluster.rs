use core::cmp::Ordering;
// fcmp is local to construct_ordering: its text is copied here from cluster.rs on every run
include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/fcmp.rs"));

fn flip(o: Ordering) -> Ordering {
    match o {
        Ordering::Less => Ordering::Greater,
        Ordering::Equal => Ordering::Equal,
        Ordering::Greater => Ordering::Less,
    }
}
// a total preorder without panics: what sort_unstable_by asks for
#[kani::proof]
fn comparison() {
    let (a, b, c) = (f32::from_bits(kani::any()), f32::from_bits(kani::any()), f32::from_bits(kani::any()));
    let (ab, bc, ac) = (fcmp(a, b), fcmp(b, c), fcmp(a, c));
    assert!(fcmp(b, a) == flip(ab), "antisymmetric");
    assert!(fcmp(a, a) == Ordering::Equal, "reflexive");
    if ab != Ordering::Greater && bc != Ordering::Greater {
        assert!(ac != Ordering::Greater, "transitive");
        assert!((ac == Ordering::Equal) == (ab == Ordering::Equal && bc == Ordering::Equal), "strict part transitive");
    }
}
