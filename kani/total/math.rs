// Group `total`: the statistics and the comparison the cluster fit relies on never panic.
use super::*;

#[kani::proof]
#[kani::unwind(18)]
fn statistics() {
    let mut points = [Vec3::new(0.0, 0.0, 0.0); 16];
    let mut weights = [0f32; 16];
    for i in 0..16 {
        points[i] = Vec3::new(f32::from_bits(kani::any()), f32::from_bits(kani::any()), f32::from_bits(kani::any()));
        weights[i] = f32::from_bits(kani::any());
    }
    let n: usize = kani::any();
    kani::assume(n <= 16);
    let c = Sym3x3::weighted_covariance(&points[..n], &weights[..n]);
    let v = c.principle_component();
    let _ = v.x();
}
/// rewrite W15: a sum adds its elements, in order, to zero (up to two elements: unit axis needs no more)
fn same(p: f32, q: f32) -> bool {
    p == q || (p != p && q != q)
}
#[kani::proof]
#[kani::unwind(4)]
fn sum_numbers() {
    let (a, b) = (f32::from_bits(kani::any()), f32::from_bits(kani::any()));
    let none: [f32; 0] = [];
    assert!(none.iter().sum::<f32>() == 0.0, "none");
    assert!(same([a].iter().sum::<f32>(), 0.0 + a), "one");
    assert!(same([a, b].iter().sum::<f32>(), 0.0 + a + b), "two");
}
#[kani::proof]
#[kani::unwind(4)]
fn sum_vectors() {
    let x = || f32::from_bits(kani::any());
    let (a, b) = (Vec3::new(x(), x(), x()), Vec3::new(x(), x(), x()));
    let zero = Vec3::new(0.0, 0.0, 0.0);
    let same = |p: Vec3, q: Vec3| same(p.x(), q.x()) && same(p.y(), q.y()) && same(p.z(), q.z());
    let none: [Vec3; 0] = [];
    assert!(same(none.iter().map(|p| *p).sum::<Vec3>(), zero), "none");
    assert!(same([a].iter().map(|p| *p).sum::<Vec3>(), zero + a), "one");
    assert!(same([a, b].iter().map(|p| *p).sum::<Vec3>(), zero + a + b), "two");
}
