// Concrete world (included per scalar type): contracts evaluated on exact numbers.
use crate::conc_state::*;
use rug::Rational;
pub const SYMBOLIC: bool = false;
#[derive(Clone, Debug)]
pub struct F(pub bool);

pub fn var(n: &str) -> S {
    withc(|c| {
        let i = c.vals.len();
        let v = match &c.replay {
            Some((v, _)) => v.get(i).cloned().unwrap_or_default(),
            None => c.draw(),
        };
        c.vals.push((n.to_string(), v.clone()));
        if let Some(t) = &c.trace {
            t.lock().unwrap().0.push((n.to_string(), v.clone()));
        }
        mk(v)
    })
}
pub fn num(n: i64) -> S {
    mk(Rational::from(n))
}
pub fn ratio(n: i64, d: i64) -> S {
    mk(Rational::from((n, d)))
}
pub fn sgn(x: &S, mask: u8) -> F {
    let v = un(x);
    let s = if v < 0 { 1 } else if v == 0 { 2 } else { 4 };
    F(mask & s != 0)
}
pub fn assume_(f: F) -> bool {
    f.0
}
pub fn need(f: F) {
    if !f.0 {
        std::panic::panic_any(Skip);
    }
}
/// a variable with a sign in the mask
pub fn varm(n: &str, mask: u8) -> S {
    let v = var(n);
    if sgn(&v, mask).0 {
        return v;
    }
    let m = &num(0) - &v;
    if sgn(&m, mask).0 {
        return m;
    }
    std::panic::panic_any(Skip)
}
pub fn split(x: &S, mask: u8) -> bool {
    sgn(x, mask).0
}
pub fn choose(n: usize) -> usize {
    withc(|c| {
        let i = c.choices.len();
        let v = match &c.replay {
            Some((_, ch)) => ch.get(i).copied().unwrap_or(0) % n.max(1),
            None => c.below(n as u64) as usize,
        };
        c.choices.push(v);
        if let Some(t) = &c.trace {
            t.lock().unwrap().1.push(v);
        }
        v
    })
}
pub fn ensure(l: &str, f: F) {
    withc(|c| {
        c.checked += 1;
        if !f.0 {
            c.failures.push(l.to_string())
        }
    })
}
pub fn mark(l: &str) {
    withc(|c| *c.marks.entry(l.to_string()).or_insert(0) += 1)
}
pub fn t() -> F {
    F(true)
}
pub fn ff() -> F {
    F(false)
}
pub fn and(v: Vec<F>) -> F {
    F(v.iter().all(|x| x.0))
}
pub fn or(v: Vec<F>) -> F {
    F(v.iter().any(|x| x.0))
}
pub fn not(a: F) -> F {
    F(!a.0)
}
pub fn hint(_: &S) {}
pub fn factor(_: &S) {}
pub fn merge_only_equal() {}
pub fn whole_line() {}
pub fn doubles(_: &[Option<f64>]) {}
pub fn holds(f: &F) -> bool {
    f.0
}
/// a step of the argument
pub fn lemma(l: &str, f: F) {
    ensure(l, f)
}
