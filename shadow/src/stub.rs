//! Contracts of callees, used in their place while a caller is proved (`modular()`).
//! A ball operation returns any ball that encloses the result for the numbers its operands stand for.
use crate::numeric::ball::Ball;
use crate::shim::{F64, quot};
use vc::engine::{F, POS, ZERO, with};
use vc::sym::Sym;

fn id(d: F64) -> Result<u32, u64> {
    match d {
        F64::S(i) => Ok(i),
        F64::C(x) => Err(x.to_bits()),
    }
}
pub fn modular() {
    with(|c| c.modular = true)
}
/// this ball stands for v
pub fn stands_for(b: Ball, v: &Sym) {
    with(|c| c.ghosts.insert((id(b.m), id(b.r)), v.clone()));
}
enum Of {
    Known(Sym),
    Anything,
    NoIdea,
}
fn of(b: Ball) -> Of {
    if !b.r.is_finite() {
        return Of::Anything;
    }
    if let Some(v) = with(|c| c.ghosts.get(&(id(b.m), id(b.r))).cloned()) {
        return Of::Known(v);
    }
    match (b.m, b.r) {
        (m, F64::C(z)) if z == 0.0 && m.is_finite() => Of::Known(m.value()),
        // a truncated rational
        (F64::S(i), _) => with(|c| c.dbls[i as usize].pre.iter().find(|p| p.1).map_or(Of::NoIdea, |p| Of::Known(p.0.clone()))),
        _ => Of::NoIdea,
    }
}
fn unbounded() -> Ball {
    let k = with(|c| c.choose_internal(4));
    let m = F64::any("~m");
    match k {
        0 => Ball { m, r: F64::INFINITY },
        1 => Ball { m, r: F64::NAN },
        2 => Ball { m: F64::NAN, r: F64::NAN },
        _ => Ball { m: F64::INFINITY, r: F64::NAN },
    }
}
fn enclosing(v: Sym) -> Ball {
    if with(|c| c.choose_internal(2)) == 1 {
        return unbounded();
    }
    let (m, r) = (F64::any("~m"), F64::any("~s"));
    let assume = |f: F| with(|c| c.assume(&f));
    assume(r.value().f(ZERO | POS));
    assume((&r.value() - &(&v - &m.value())).f(ZERO | POS));
    assume((&r.value() + &(&v - &m.value())).f(ZERO | POS));
    let b = Ball { m, r };
    stands_for(b, &v);
    b
}
fn op(a: Ball, b: Ball, f: impl Fn(&Sym, &Sym) -> Option<Sym>) -> Option<Ball> {
    if !with(|c| c.modular) {
        return None;
    }
    match (of(a), of(b)) {
        (Of::Known(x), Of::Known(y)) => Some(f(&x, &y).map_or_else(unbounded, enclosing)),
        (Of::NoIdea, _) | (_, Of::NoIdea) => None,
        _ => Some(unbounded()),
    }
}
pub fn ball_add(a: Ball, b: Ball) -> Option<Ball> {
    op(a, b, |x, y| Some(x + y))
}
pub fn ball_sub(a: Ball, b: Ball) -> Option<Ball> {
    op(a, b, |x, y| Some(x - y))
}
pub fn ball_mul(a: Ball, b: Ball) -> Option<Ball> {
    op(a, b, |x, y| Some(x * y))
}
pub fn ball_div(a: Ball, b: Ball) -> Option<Ball> {
    op(a, b, |x, y| if y.is(ZERO) { None } else { Some(quot(x, y)) })
}
