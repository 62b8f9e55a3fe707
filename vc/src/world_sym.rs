//! Symbolic world: contracts are interpreted as proof obligations.
pub use crate::engine::F;
use crate::engine::*;
pub type S = crate::sym::Sym;
use cgar::geometry::point::Point;

pub const SYMBOLIC: bool = true;
pub fn var(n: &str) -> S {
    S::var(n)
}
pub fn pt<const N: usize>(n: &str) -> Point<S, N> {
    Point { coords: std::array::from_fn(|i| var(&format!("{}{}", n, i))) }
}
pub fn num(n: i64) -> S {
    S::rat(rug::Rational::from(n))
}
pub fn ratio(n: i64, d: i64) -> S {
    S::rat(rug::Rational::from((n, d)))
}
pub fn sgn(x: &S, mask: u8) -> F {
    x.f(mask)
}
pub fn assume_(f: F) -> bool {
    with(|c| c.assume(&f));
    true
}
pub fn need(f: F) {
    with(|c| c.assume(&f));
}
/// a variable with a sign in the mask
pub fn varm(n: &str, mask: u8) -> S {
    let v = var(n);
    need(sgn(&v, mask));
    v
}
/// branch on a formula-free condition
pub fn split(x: &S, mask: u8) -> bool {
    x.is(mask)
}
pub fn choose(n: usize) -> usize {
    with(|c| c.choose(n))
}
pub fn ensure(l: &str, f: F) {
    with(|c| c.ensure(l, f))
}
pub fn mark(l: &str) {
    with(|c| c.mark(l))
}
pub fn t() -> F {
    F::True
}
pub fn ff() -> F {
    F::False
}
pub fn and(v: Vec<F>) -> F {
    if v.iter().any(|x| matches!(x, F::False)) { return F::False; }
    F::And(v)
}
pub fn or(v: Vec<F>) -> F {
    if v.iter().any(|x| matches!(x, F::True)) { return F::True; }
    F::Or(v)
}
pub fn not(a: F) -> F {
    match a {
        F::True => F::False,
        F::False => F::True,
        a => F::Not(Box::new(a)),
    }
}
/// proof hint: multiply equations of the path by this value when looking for consequences
pub fn hint(x: &S) {
    with(|c| c.hints.push(x.num.clone()))
}
/// proof hint: factor this value out of everything (its sign is decided once)
pub fn factor(x: &S) {
    with(|c| c.factor(&x.num))
}
/// points are merged only when equal
pub fn merge_only_equal() {
    with(|c| c.merge_zero = true)
}
/// the answers of the next requests for double approximations (afterwards: not available)
pub fn doubles(v: &[Option<f64>]) {
    with(|c| c.script = Some(v.iter().copied().collect()))
}
/// every double interval is the whole line: decisions are left to the exact comparisons
pub fn whole_line() {
    with(|c| c.whole_line = true)
}
pub fn holds(_: &F) -> bool {
    unreachable!()
}
/// a step of the argument: proved, then used
pub fn lemma(l: &str, f: F) {
    with(|c| c.step(l, f))
}
