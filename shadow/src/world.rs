//! Symbolic world of the extracted numeric code.
pub use crate::shim::F64;
pub use crate::{geometry, numeric, operations};
use crate::shim::rug::Rational;
pub use vc::world_sym::*;
use numeric::{ball::Ball, cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};
pub type D = F64;
/// any finite double
pub fn dbl(n: &str) -> D {
    F64::any(n)
}
pub fn dnum(x: f64) -> D {
    crate::shim::lit(x)
}
pub fn dval(d: D) -> S {
    d.value()
}
/// any rational of absolute value at most r
pub fn within(n: &str, r: D) -> S {
    let v = var(n);
    need(sgn(&(&r.value() - &v), 6));
    need(sgn(&(&r.value() + &v), 6));
    v
}
pub fn rat(x: &S) -> CgarRational {
    CgarRational(Rational(x.clone()))
}
pub fn unrat(x: &CgarRational) -> S {
    x.0.0.clone()
}
/// any lazy number known only by an enclosing ball, not by the expression it came from
pub fn any_node(n: &str, v: &S, ball: Ball, depth: u32) -> LazyExact {
    let ready = choose(2) == 1;
    crate::stub::stands_for(ball, v);
    numeric::lazy_exact::shadow_node(rat(v), CgarF64(dbl(&format!("{}a", n))), ready, ball, depth)
}
pub use crate::shim::quot;
pub use crate::stub::modular;
pub fn recip(b: Ball) -> Ball {
    b.shadow_recip()
}
/// a lazy number about which nothing is known but its value
pub fn plain_node(_: &str, v: &S) -> LazyExact {
    let ready = choose(2) == 1;
    numeric::lazy_exact::shadow_node(rat(v), CgarF64(F64::C(0.5)), ready, Ball { m: F64::C(0.0), r: F64::INFINITY }, 1)
}
pub fn to_f64<T: crate::shim::num_traits::ToPrimitive>(x: &T) -> D {
    x.to_f64().unwrap()
}
