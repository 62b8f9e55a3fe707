//! Concrete world on the lazy exact number type.
use cgar::numeric::lazy_exact::LazyExact;
pub type S = LazyExact;
/// a double leaf when the value is a double, a rational leaf otherwise
pub fn mk(r: Rational) -> S {
    let f = r.to_f64();
    if f.is_finite() && Rational::from_f64(f).as_ref() == Some(&r) { LazyExact::from(f) } else { LazyExact::from(r) }
}
pub fn un(x: &S) -> Rational {
    x.exact().0
}
include!("conc_body.rs");
use cgar::geometry::point::Point;
pub fn pt<const N: usize>(n: &str) -> Point<S, N> {
    Point { coords: std::array::from_fn(|i| var(&format!("{}{}", n, i))) }
}
