//! Concrete world of the numeric code: the repository's own types on machine doubles and GMP rationals.
pub use cgar::{geometry, numeric, operations};
use numeric::{ball::Ball, cgar_rational::CgarRational, lazy_exact::LazyExact};
use std::ops::{Add, Div, Mul, Sub};
pub type D = f64;
/// exact numbers of the specification, independent of the number types under check
#[derive(Clone, Debug)]
pub struct S(pub Rational);
macro_rules! ops {
    ($($t:ident $m:ident;)*) => {$(
        impl $t for S { type Output = S; fn $m(self, o: S) -> S { S(self.0.$m(o.0)) } }
        impl<'a> $t<&'a S> for S { type Output = S; fn $m(self, o: &'a S) -> S { S(self.0.$m(&o.0)) } }
        impl<'a> $t<S> for &'a S { type Output = S; fn $m(self, o: S) -> S { S(self.0.clone().$m(o.0)) } }
        impl<'a, 'b> $t<&'b S> for &'a S { type Output = S; fn $m(self, o: &'b S) -> S { S(self.0.clone().$m(&o.0)) } }
    )*};
}
ops! { Add add; Sub sub; Mul mul; Div div; }
pub fn mk(r: Rational) -> S {
    S(r)
}
pub fn un(x: &S) -> Rational {
    x.0.clone()
}
include!("conc_body.rs");
fn input(n: &str, draw: impl FnOnce() -> Rational) -> Rational {
    let r = withc(|c| c.replay.as_ref().map(|(v, _)| v.get(c.vals.len()).cloned().unwrap_or_default()));
    let v = r.unwrap_or_else(draw);
    withc(|c| c.vals.push((n.to_string(), v.clone())));
    v
}
fn below(n: u64) -> u64 {
    withc(|c| c.below(n))
}
/// any finite double
pub fn dbl(n: &str) -> D {
    let v = input(n, || {
        let f = match below(12) {
            0 => f64::from_bits(withc(|c| c.next())),
            1 => [0.0, 1.0, -1.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, -f64::MAX, 0.1, 1e300, 1e-300, 1e-160, 1e160][below(12) as usize],
            2 => withc(|c| c.draw()).to_f64().next_up(),
            3 => withc(|c| c.draw()).to_f64().next_down(),
            4 | 5 => {
                let p = withc(|c| if c.vals.is_empty() { Rational::from(1) } else { let i = c.below(c.vals.len() as u64) as usize; c.vals[i].1.clone() });
                let f = p.to_f64();
                match below(3) { 0 => f, 1 => f.next_up(), _ => f.next_down() }
            }
            _ => withc(|c| c.draw()).to_f64(),
        };
        Rational::from_f64(if f.is_finite() { f } else { 1.0 }).unwrap()
    });
    v.to_f64()
}
pub fn dnum(x: f64) -> D {
    x
}
pub fn dval(d: D) -> S {
    S(Rational::from_f64(d).expect("finite double"))
}
/// any rational of absolute value at most r
pub fn within(n: &str, r: D) -> S {
    let v = input(n, || {
        let r = Rational::from_f64(r).unwrap();
        match below(6) {
            0 | 1 => r,
            2 | 3 => -r,
            4 => Rational::new(),
            _ => r * Rational::from((below(2001) as i64 - 1000, 1000)),
        }
    });
    let v = S(v);
    need(sgn(&(&dval(r) - &v), 6));
    need(sgn(&(&dval(r) + &v), 6));
    v
}
pub fn rat(x: &S) -> CgarRational {
    CgarRational(x.0.clone())
}
pub fn unrat(x: &CgarRational) -> S {
    S(x.0.clone())
}
/// a number of this value built by some expression (the concrete world ignores the given ball)
pub fn any_node(_: &str, v: &S, _: Ball, _: u32) -> LazyExact {
    let force = choose(2);
    let f = v.0.to_f64();
    let q = |x: Rational| LazyExact::from(x);
    let d = if f.is_finite() { Rational::from_f64(f).unwrap() } else { Rational::new() };
    let x = match below_of(v) % 8 {
        0 => q(v.0.clone() - d.clone()) + LazyExact::from(d.to_f64()),
        1 => LazyExact::from(1.0) * q(v.0.clone() + 1) - LazyExact::from(1.0),
        2 => q(v.0.clone() * 3) / LazyExact::from(3.0),
        3 => -(LazyExact::from(0.1) - (LazyExact::from(0.1) + q(v.0.clone()))),
        4 => q(v.0.clone() / 7) * LazyExact::from(7.0),
        5 => LazyExact::from(d.to_f64()) - q(d.clone() - v.0.clone()),
        6 => q(v.0.clone()),
        _ if below_of(v) % 64 != 7 => (1..40).fold(q(v.0.clone()), |a, _| a + LazyExact::from(0.3) - LazyExact::from(0.3)),
        // deeper than any folding limit
        _ => (1..700).fold(q(v.0.clone()), |a, _| a + LazyExact::from(0.5) - LazyExact::from(0.5)),
    };
    if force == 1 {
        x.force_exact();
    }
    x
}
/// a number determined by the value (so that replays build the same expression)
fn below_of(v: &S) -> u64 {
    let s = v.0.to_string();
    s.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)) >> 3
}
pub fn quot(x: &S, y: &S) -> S {
    x / y
}
pub fn recip(b: Ball) -> Ball {
    Ball { m: 1.0, r: 0.0 }.div(b)
}
pub fn modular() {}
pub fn plain_node(n: &str, v: &S) -> LazyExact {
    any_node(n, v, Ball { m: 0.0, r: 0.0 }, 1)
}
pub fn to_f64<T: num_traits::ToPrimitive>(x: &T) -> D {
    x.to_f64().unwrap()
}
