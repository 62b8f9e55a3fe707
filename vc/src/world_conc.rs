//! Concrete world on the rational number type.
use cgar::numeric::cgar_rational::CgarRational;
pub type S = CgarRational;
pub fn mk(r: Rational) -> S {
    CgarRational(r)
}
pub fn un(x: &S) -> Rational {
    x.0.clone()
}
include!("conc_body.rs");
use cgar::geometry::point::Point;
pub fn pt<const N: usize>(n: &str) -> Point<S, N> {
    Point { coords: std::array::from_fn(|i| var(&format!("{}{}", n, i))) }
}
