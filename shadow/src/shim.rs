//! Stand-ins for the machine double and for GMP rationals in the extracted numeric code.
//!
//! `F64` is a literal double or a symbolic finite double.  Arithmetic on symbolic doubles follows IEEE 754
//! round-to-nearest: the result is a fresh real within half an ulp of the exact result, infinite exactly when
//! the exact result reaches the overflow threshold; the same operation on the same value gives the same double.
//! The sign of a computed zero is left open.  `rug::Rational` is an exact ordered field.
use std::cmp::Ordering;
use std::ops::*;
use vc::engine::{Dbl, F, NEG, POS, Unsupported, ZERO, with};
use vc::sym::Sym;

fn unsupported(s: &str) -> ! {
    std::panic::panic_any(Unsupported(s.to_string()))
}
fn two(e: i32) -> ::rug::Rational {
    let one = ::rug::Rational::from(1);
    if e >= 0 { one << e as u32 } else { one >> (-e) as u32 }
}
fn con(r: ::rug::Rational) -> Sym {
    Sym::rat(r)
}
fn assume(f: F) {
    with(|c| c.assume(&f))
}
fn fresh(n: &str) -> Sym {
    Sym::from_poly(with(|c| c.fresh(n)))
}
fn fork(n: usize) -> usize {
    with(|c| c.choose_internal(n))
}
fn key(t: &Sym) -> (vc::poly::Poly, Vec<vc::poly::Poly>) {
    (t.num.clone(), t.den.to_vec())
}

#[derive(Clone, Copy)]
pub enum F64 {
    C(f64),
    S(u32),
}
use F64::*;
pub const fn lit(x: f64) -> F64 {
    C(x)
}
pub const fn neg_lit(x: f64) -> F64 {
    C(-x)
}

/// largest finite double
fn max_() -> ::rug::Rational {
    ::rug::Rational::from_f64(f64::MAX).unwrap()
}
#[derive(Clone, Copy, PartialEq)]
enum Op {
    Sum,
    Prod,
}

impl F64 {
    pub const INFINITY: F64 = C(f64::INFINITY);
    pub const NEG_INFINITY: F64 = C(f64::NEG_INFINITY);
    pub const NAN: F64 = C(f64::NAN);
    pub const EPSILON: F64 = C(f64::EPSILON);
    pub const MIN_POSITIVE: F64 = C(f64::MIN_POSITIVE);
    pub const MAX: F64 = C(f64::MAX);
    pub const MIN: F64 = C(f64::MIN);

    /// register a finite double with this value
    fn make(v: Sym, pre: Vec<(Sym, bool)>) -> F64 {
        if let Some(i) = with(|c| c.dbl_ids.get(&key(&v)).copied()) {
            with(|c| c.dbls[i as usize].pre.extend(pre));
            return S(i);
        }
        with(|c| {
            let i = c.dbls.len() as u32;
            c.dbl_ids.insert(key(&v), i);
            c.dbls.push(Dbl { v, pre, gap: None, below: None });
            S(i)
        })
    }
    /// an arbitrary finite double
    pub fn any(name: &str) -> F64 {
        let v = Sym::var(name);
        let m = con(max_());
        assume((&m - &v).f(ZERO | POS));
        assume((&m + &v).f(ZERO | POS));
        F64::make(v, vec![])
    }
    /// exact value of a finite double
    pub fn value(self) -> Sym {
        match self {
            C(x) => con(::rug::Rational::from_f64(x).expect("finite double")),
            S(i) => with(|c| c.dbls[i as usize].v.clone()),
        }
    }
    fn zero_() -> F64 {
        F64::make(con(::rug::Rational::new()), vec![])
    }
    pub fn is_finite(self) -> bool {
        match self {
            C(x) => x.is_finite(),
            S(_) => true,
        }
    }
    pub fn is_nan(self) -> bool {
        matches!(self, C(x) if x.is_nan())
    }
    pub fn is_infinite(self) -> bool {
        matches!(self, C(x) if x.is_infinite())
    }
    /// the double nearest to t
    fn round(t: Sym, op: Op) -> F64 {
        if let Some(c) = t.as_const() {
            if c == 0 {
                return F64::zero_();
            }
            let v = c.to_f64();
            if v.is_finite() && ::rug::Rational::from_f64(v).as_ref() == Some(&c) {
                return C(v);
            }
        }
        for s in [t.clone(), -&t] {
            if let Some(i) = with(|c| c.dbl_ids.get(&key(&s)).copied()) {
                return if s.num == t.num { S(i) } else { -S(i) };
            }
        }
        let k = (key(&t), op == Op::Sum);
        if let Some(r) = with(|c| c.rounded.get(&k).copied()) {
            return match r {
                Ok(i) => S(i),
                Err(x) => C(x),
            };
        }
        // rounding is symmetric
        let kn = (key(&-&t), op == Op::Sum);
        if let Some(r) = with(|c| c.rounded.get(&kn).copied()) {
            return match r {
                Ok(i) => -S(i),
                Err(x) => C(-x),
            };
        }
        let r = F64::round_new(&t, op);
        with(|c| c.rounded.insert(k, match r { S(i) => Ok(i), C(x) => Err(x) }));
        r
    }
    fn round_new(t: &Sym, op: Op) -> F64 {
        if t.is(ZERO) {
            return F64::zero_();
        }
        let up = t.is(POS);
        let m = if up { t.clone() } else { -t };
        let top = con(two(1024) - two(970));
        if !(&top - &m).is(POS) {
            return C(if up { f64::INFINITY } else { f64::NEG_INFINITY });
        }
        let r = fresh("~r");
        let a = if up { r.clone() } else { -&r };
        let (u, eta) = (two(-53), if op == Op::Sum { ::rug::Rational::new() } else { two(-1075) });
        assume(a.f(if op == Op::Sum { POS } else { ZERO | POS }));
        assume((&con(max_()) - &a).f(ZERO | POS));
        let lo = &(&m * &con(1 - u.clone())) - &con(eta.clone());
        let hi = &(&m * &con(1 + u)) + &con(eta);
        assume((&a - &lo).f(ZERO | POS));
        assume((&hi - &a).f(ZERO | POS));
        F64::make(r, vec![(t.clone(), false)])
    }
    /// distance to the neighbour away from zero; the double must not be zero
    fn gap(self) -> Sym {
        let S(i) = self else { unreachable!() };
        if let Some(g) = with(|c| c.dbls[i as usize].gap.clone()) {
            return g;
        }
        let v = self.value();
        let m = if v.is(ZERO) { con(::rug::Rational::new()) } else if v.is(POS) { v.clone() } else { -&v };
        let g = fresh("~g");
        assume((&g - &con(two(-1074))).f(ZERO | POS));
        assume((&(&(&m * &con(two(-52))) + &con(two(-1074))) - &g).f(ZERO | POS));
        assume((&g - &(&m * &con(two(-53)))).f(ZERO | POS));
        for (t, truncated) in with(|c| c.dbls[i as usize].pre.clone()) {
            let h = if truncated { g.clone() } else { &g * &con(::rug::Rational::from((1, 2))) };
            let d = &t - &v;
            assume((&h - &d).f(ZERO | POS));
            assume((&h + &d).f(ZERO | POS));
        }
        with(|c| c.dbls[i as usize].gap = Some(g.clone()));
        // a power of two
        F64::make(g.clone(), vec![]);
        g
    }
    /// distance to the neighbour towards zero; the double must not be zero
    fn below(self) -> Sym {
        let S(i) = self else { unreachable!() };
        if let Some(g) = with(|c| c.dbls[i as usize].below.clone()) {
            return g;
        }
        let g = self.gap();
        let v = self.value();
        let pos = v.is(POS);
        let m = if pos { v.clone() } else { -&v };
        let b = fresh("~b");
        assume((&b - &con(two(-1074))).f(ZERO | POS));
        assume((&g - &b).f(ZERO | POS));
        assume((&(&b + &b) - &g).f(ZERO | POS));
        assume((&m - &b).f(ZERO | POS));
        for (t, truncated) in with(|c| c.dbls[i as usize].pre.clone()) {
            let t = if pos { t } else { -&t };
            if truncated {
                assume((&t - &m).f(ZERO | POS));
            } else {
                // |v| - |t| <= b/2
                let d = &m - &t;
                assume((&b - &(&d + &d)).f(ZERO | POS));
            }
        }
        with(|c| c.dbls[i as usize].below = Some(b.clone()));
        F64::make(b.clone(), vec![]);
        b
    }
    /// the path has established that this double is zero
    fn is_zero_now(self) {
        if let S(i) = self {
            with(|c| c.dbls[i as usize].v = Sym::default());
        }
    }
    pub fn to_bits(self) -> Bits {
        Bits { of: self, plus: 0 }
    }
    pub fn from_bits(b: impl Into<Bits>) -> F64 {
        let b: Bits = b.into();
        if b.plus == 0 {
            return b.of;
        }
        match b.of {
            C(x) => C(f64::from_bits((x.to_bits() as i128 + b.plus as i128) as u64)),
            s => {
                let v = s.value();
                if v.is(ZERO) {
                    s.is_zero_now();
                    // either zero
                    let z = if fork(2) == 0 { 0.0f64 } else { -0.0 };
                    let k = z.to_bits() as i128 + b.plus as i128;
                    if k < 0 {
                        panic!("attempt to subtract with overflow");
                    }
                    return C(f64::from_bits(k as u64));
                }
                let pos = v.is(POS);
                let m = if pos { v.clone() } else { -&v };
                let r = match b.plus {
                    1 => {
                        if !(&con(max_()) - &m).is(POS) {
                            return C(if pos { f64::INFINITY } else { f64::NEG_INFINITY });
                        }
                        let g = s.gap();
                        let r = &m + &g;
                        assume((&con(max_()) - &r).f(ZERO | POS));
                        r
                    }
                    -1 => &m - &s.below(),
                    _ => unsupported("bit pattern arithmetic"),
                };
                F64::make(if pos { r } else { -&r }, vec![])
            }
        }
    }
    pub fn next_up(self) -> F64 {
        match self {
            C(x) => C(x.next_up()),
            s => {
                let v = s.value();
                if v.is(ZERO) {
                    return C(f64::from_bits(1));
                }
                let d = if v.is(POS) { 1 } else { -1 };
                F64::from_bits(Bits { of: s, plus: d })
            }
        }
    }
    pub fn next_down(self) -> F64 {
        -((-self).next_up())
    }
    pub fn abs(self) -> F64 {
        match self {
            C(x) => C(x.abs()),
            s => if s.value().is(NEG) { -s } else { s },
        }
    }
    pub fn signum(self) -> F64 {
        match self {
            C(x) => C(x.signum()),
            s => {
                let v = s.value();
                if v.is(ZERO) { C(if fork(2) == 0 { 1.0 } else { -1.0 }) } else if v.is(POS) { C(1.0) } else { C(-1.0) }
            }
        }
    }
    pub fn is_sign_negative(self) -> bool {
        match self {
            C(x) => x.is_sign_negative(),
            s => {
                let v = s.value();
                if !v.is(ZERO) {
                    return v.is(NEG);
                }
                // a given double keeps its sign, computed zeros are not told apart
                let S(i) = s else { unreachable!() };
                if let Some(b) = with(|c| c.zero_sign.get(&i).copied()) {
                    return b;
                }
                let b = fork(2) == 1;
                if with(|c| c.dbl_ids.get(&key(&Sym::default())).copied()) != Some(i) {
                    with(|c| c.zero_sign.insert(i, b));
                }
                b
            }
        }
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn copysign(self, o: F64) -> F64 {
        if o.is_sign_negative() { -self.abs() } else { self.abs() }
    }
    pub fn max(self, o: F64) -> F64 {
        if self.is_nan() { o } else if o.is_nan() { self } else if self >= o { self } else { o }
    }
    pub fn min(self, o: F64) -> F64 {
        if self.is_nan() { o } else if o.is_nan() { self } else if self <= o { self } else { o }
    }
    pub fn clamp(self, a: F64, b: F64) -> F64 {
        if self < a { a } else if self > b { b } else { self }
    }
    pub fn recip(self) -> F64 {
        C(1.0) / self
    }
    pub fn mul_add(self, b: F64, c: F64) -> F64 {
        if let (C(x), C(y), C(z)) = (self, b, c) {
            return C(x.mul_add(y, z));
        }
        if self.is_finite() && b.is_finite() {
            if !c.is_finite() {
                return c;
            }
            return F64::round(&(&self.value() * &b.value()) + &c.value(), Op::Prod);
        }
        self * b + c
    }
    pub fn powi(self, n: i32) -> F64 {
        match (self, n) {
            (C(x), n) => C(x.powi(n)),
            (_, 0) => C(1.0),
            (x, 1) => x,
            (x, 2) => x * x,
            _ => unsupported("powi"),
        }
    }
    pub fn sqrt(self) -> F64 {
        match self {
            C(x) => C(x.sqrt()),
            _ => unsupported("sqrt"),
        }
    }
    pub fn floor(self) -> F64 {
        match self {
            C(x) => C(x.floor()),
            _ => unsupported("floor"),
        }
    }
    pub fn ceil(self) -> F64 {
        match self {
            C(x) => C(x.ceil()),
            _ => unsupported("ceil"),
        }
    }
    pub fn trunc(self) -> F64 {
        match self {
            C(x) => C(x.trunc()),
            _ => unsupported("trunc"),
        }
    }
    pub fn total_cmp(&self, o: &F64) -> Ordering {
        match (*self, *o) {
            (C(x), C(y)) => x.total_cmp(&y),
            (a, b) => {
                if a.is_nan() || b.is_nan() {
                    unsupported("total order of NaN");
                }
                match a.partial_cmp(&b).unwrap() {
                    Ordering::Equal if a.value().is(ZERO) => match a.is_sign_negative().cmp(&b.is_sign_negative()) {
                        Ordering::Less => Ordering::Greater,
                        Ordering::Greater => Ordering::Less,
                        e => e,
                    },
                    x => x,
                }
            }
        }
    }
}
impl Neg for F64 {
    type Output = F64;
    fn neg(self) -> F64 {
        match self {
            C(x) => C(-x),
            S(i) => {
                let (v, pre) = with(|c| (c.dbls[i as usize].v.clone(), c.dbls[i as usize].pre.clone()));
                F64::make(-&v, pre.into_iter().map(|(t, k)| (-&t, k)).collect())
            }
        }
    }
}
impl<'a> Neg for &'a F64 {
    type Output = F64;
    fn neg(self) -> F64 {
        -*self
    }
}
fn add(a: F64, b: F64) -> F64 {
    match (a, b) {
        (C(x), C(y)) => C(x + y),
        (C(x), _) if !x.is_finite() => a,
        (_, C(y)) if !y.is_finite() => b,
        _ => F64::round(&a.value() + &b.value(), Op::Sum),
    }
}
fn inf_times(x: f64, s: F64) -> F64 {
    let v = s.value();
    if x.is_nan() || v.is(ZERO) { C(f64::NAN) } else if v.is(POS) { C(x) } else { C(-x) }
}
fn mul(a: F64, b: F64) -> F64 {
    match (a, b) {
        (C(x), C(y)) => C(x * y),
        (C(x), s) if !x.is_finite() => inf_times(x, s),
        (s, C(y)) if !y.is_finite() => inf_times(y, s),
        _ => {
            let (x, y) = (a.value(), b.value());
            if x.is(ZERO) || y.is(ZERO) {
                return F64::zero_();
            }
            let s = x.is(POS) == y.is(POS);
            let t = &x * &y;
            assume(t.f(if s { POS } else { NEG }));
            F64::round(t, Op::Prod)
        }
    }
}
/// x / y for y not zero, as a number q with q * y = x
pub fn quot(x: &Sym, y: &Sym) -> Sym {
    if x.as_const().is_some() && y.as_const().is_some() {
        return x / y;
    }
    if x.is(ZERO) {
        return Sym::default();
    }
    let (sx, sy) = (x.is(POS), y.is(POS));
    let (x, y) = (if sx { x.clone() } else { -x }, if sy { y.clone() } else { -y });
    let k = key(&(&x / &y));
    let q = match with(|c| c.quots.get(&k).cloned()) {
        Some(q) => q,
        None => {
            let q = fresh("~q");
            assume(q.f(POS));
            assume((&(&q * &y) - &x).f(ZERO));
            with(|c| c.quots.insert(k, q.clone()));
            q
        }
    };
    if sx == sy { q } else { -&q }
}
fn div(a: F64, b: F64) -> F64 {
    match (a, b) {
        (C(x), C(y)) => C(x / y),
        (C(x), s) if !x.is_finite() => {
            let v = s.value();
            if x.is_nan() { a } else if v.is(ZERO) { C(if fork(2) == 0 { x } else { -x }) } else if v.is(POS) { a } else { C(-x) }
        }
        (_, C(y)) if y.is_nan() => b,
        (_, C(y)) if y.is_infinite() => F64::zero_(),
        _ => {
            let (x, y) = (a.value(), b.value());
            if y.is(ZERO) {
                if x.is(ZERO) {
                    return C(f64::NAN);
                }
                return C(if fork(2) == 0 { f64::INFINITY } else { f64::NEG_INFINITY });
            }
            F64::round(quot(&x, &y), Op::Prod)
        }
    }
}
macro_rules! ops {
    ($($t:ident $m:ident $ta:ident $ma:ident $f:expr;)*) => {$(
        impl $t for F64 { type Output = F64; fn $m(self, o: F64) -> F64 { $f(self, o) } }
        impl<'a> $t<&'a F64> for F64 { type Output = F64; fn $m(self, o: &'a F64) -> F64 { $f(self, *o) } }
        impl<'a> $t<F64> for &'a F64 { type Output = F64; fn $m(self, o: F64) -> F64 { $f(*self, o) } }
        impl<'a, 'b> $t<&'b F64> for &'a F64 { type Output = F64; fn $m(self, o: &'b F64) -> F64 { $f(*self, *o) } }
        impl $ta for F64 { fn $ma(&mut self, o: F64) { *self = $f(*self, o) } }
        impl<'a> $ta<&'a F64> for F64 { fn $ma(&mut self, o: &'a F64) { *self = $f(*self, *o) } }
    )*};
}
ops! {
    Add add AddAssign add_assign add;
    Sub sub SubAssign sub_assign |a: F64, b: F64| add(a, -b);
    Mul mul MulAssign mul_assign mul;
    Div div DivAssign div_assign div;
}
fn rel(a: &F64, b: &F64, want: u8) -> bool {
    let inf = |x: f64| if x > 0.0 { 1 } else { -1 };
    let s = match (*a, *b) {
        (C(x), C(y)) => match x.partial_cmp(&y) {
            None => return false,
            Some(o) => o as i32,
        },
        (C(x), _) if x.is_nan() => return false,
        (_, C(y)) if y.is_nan() => return false,
        (C(x), _) if x.is_infinite() => inf(x),
        (_, C(y)) if y.is_infinite() => -inf(y),
        _ => return (&a.value() - &b.value()).is(want),
    };
    want & (if s < 0 { NEG } else if s == 0 { ZERO } else { POS }) != 0
}
impl PartialEq for F64 {
    fn eq(&self, o: &F64) -> bool {
        rel(self, o, ZERO)
    }
}
impl PartialOrd for F64 {
    fn partial_cmp(&self, o: &F64) -> Option<Ordering> {
        if self.is_nan() || o.is_nan() {
            return None;
        }
        Some(if rel(self, o, NEG) { Ordering::Less } else if rel(self, o, ZERO) { Ordering::Equal } else { Ordering::Greater })
    }
    fn lt(&self, o: &F64) -> bool {
        rel(self, o, NEG)
    }
    fn le(&self, o: &F64) -> bool {
        rel(self, o, NEG | ZERO)
    }
    fn gt(&self, o: &F64) -> bool {
        rel(self, o, POS)
    }
    fn ge(&self, o: &F64) -> bool {
        rel(self, o, POS | ZERO)
    }
}
impl Default for F64 {
    fn default() -> F64 {
        C(0.0)
    }
}
impl std::fmt::Debug for F64 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            C(x) => write!(f, "{:?}", x),
            S(i) => write!(f, "double#{}", i),
        }
    }
}
impl std::fmt::Display for F64 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl From<i32> for F64 {
    fn from(v: i32) -> F64 {
        C(v as f64)
    }
}
impl From<u32> for F64 {
    fn from(v: u32) -> F64 {
        C(v as f64)
    }
}

/// the bit pattern of a double, possibly moved by a few steps
#[derive(Clone, Copy, Debug)]
pub struct Bits {
    of: F64,
    plus: i64,
}
impl Add<u64> for Bits {
    type Output = Bits;
    fn add(self, o: u64) -> Bits {
        Bits { of: self.of, plus: self.plus + o as i64 }
    }
}
impl Sub<u64> for Bits {
    type Output = Bits;
    fn sub(self, o: u64) -> Bits {
        Bits { of: self.of, plus: self.plus - o as i64 }
    }
}
impl AddAssign<u64> for Bits {
    fn add_assign(&mut self, o: u64) {
        self.plus += o as i64
    }
}
impl SubAssign<u64> for Bits {
    fn sub_assign(&mut self, o: u64) {
        self.plus -= o as i64
    }
}
impl Bits {
    pub fn wrapping_add(self, o: u64) -> Bits {
        self + o
    }
    pub fn wrapping_sub(self, o: u64) -> Bits {
        self - o
    }
}
impl From<u64> for Bits {
    fn from(v: u64) -> Bits {
        Bits { of: C(f64::from_bits(v)), plus: 0 }
    }
}
impl PartialEq for Bits {
    fn eq(&self, o: &Bits) -> bool {
        if self.plus != 0 || o.plus != 0 {
            unsupported("bit pattern comparison");
        }
        match (self.of, o.of) {
            (C(x), C(y)) => x.to_bits() == y.to_bits(),
            (S(a), S(b)) if a == b => true,
            (a, b) => {
                if !a.is_finite() || !b.is_finite() {
                    return false;
                }
                rel(&a, &b, ZERO) && (!a.value().is(ZERO) || a.is_sign_negative() == b.is_sign_negative())
            }
        }
    }
}
impl Eq for Bits {}
impl std::hash::Hash for Bits {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        if self.plus != 0 {
            unsupported("hash of a bit pattern");
        }
        match self.of {
            C(x) if !x.is_finite() => h.write_u64(x.to_bits()),
            x => {
                let n = x.is_sign_negative();
                h.write_u64(ident(&x.value()) * 2 + n as u64)
            }
        }
    }
}

/// a number that is the same for equal values (and different otherwise)
fn ident(v: &Sym) -> u64 {
    let n = with(|c| c.idents.len());
    for i in 0..n {
        let w = with(|c| c.idents[i].clone());
        if (&w - v).is(ZERO) {
            return i as u64;
        }
    }
    with(|c| c.idents.push(v.clone()));
    n as u64
}

pub trait CastTo<T> {
    fn cast_to(self) -> T;
}
pub fn cast<A: CastTo<B>, B>(a: A) -> B {
    a.cast_to()
}
macro_rules! casts {
    ($($a:ty)*) => {$(
        casts!(@ $a => u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);
        impl CastTo<F64> for $a { fn cast_to(self) -> F64 { C(self as f64) } }
        impl CastTo<$a> for F64 { fn cast_to(self) -> $a { match self { C(x) => x as $a, _ => unsupported("conversion of a double to an integer") } } }
    )*};
    (@ $a:ty => $($b:ty)*) => {$( impl CastTo<$b> for $a { fn cast_to(self) -> $b { self as $b } } )*};
}
casts!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);
impl CastTo<F64> for F64 {
    fn cast_to(self) -> F64 {
        self
    }
}
impl CastTo<f32> for F64 {
    fn cast_to(self) -> f32 {
        match self {
            C(x) => x as f32,
            _ => unsupported("conversion of a double to a single"),
        }
    }
}
impl CastTo<F64> for f32 {
    fn cast_to(self) -> F64 {
        C(self as f64)
    }
}

pub mod num_traits {
    use super::F64;
    pub trait ToPrimitive {
        fn to_i64(&self) -> Option<i64>;
        fn to_u64(&self) -> Option<u64>;
        fn to_i32(&self) -> Option<i32> {
            self.to_i64().and_then(|x| x.try_into().ok())
        }
        fn to_f32(&self) -> Option<f32> {
            None
        }
        fn to_f64(&self) -> Option<F64> {
            None
        }
    }
}

pub mod rug {
    use super::*;
    #[derive(Clone)]
    pub struct Rational(pub Sym);
    #[derive(Clone)]
    pub struct Integer(pub Sym);
    pub struct Float;
    impl Float {
        pub fn to_rational(&self) -> Option<Rational> {
            unsupported("multiprecision floats")
        }
    }
    pub mod integer {
        pub enum Order {
            Lsf,
            LsfLe,
            LsfBe,
            Msf,
            MsfLe,
            MsfBe,
        }
    }
    impl Rational {
        pub fn new() -> Rational {
            Rational(Sym::default())
        }
        pub fn from_f64(v: F64) -> Option<Rational> {
            if v.is_finite() { Some(Rational(v.value())) } else { None }
        }
        pub fn is_positive(&self) -> bool {
            self.0.is(POS)
        }
        pub fn is_negative(&self) -> bool {
            self.0.is(NEG)
        }
        pub fn is_zero(&self) -> bool {
            self.0.is(ZERO)
        }
        pub fn cmp0(&self) -> Ordering {
            self.partial_cmp(&Rational::new()).unwrap()
        }
        pub fn abs(self) -> Rational {
            if self.0.is(NEG) { Rational(-self.0) } else { self }
        }
        pub fn abs_mut(&mut self) {
            if self.0.is(NEG) {
                self.0 = -&self.0;
            }
        }
        pub fn abs_ref(&self) -> Rational {
            self.clone().abs()
        }
        pub fn square(self) -> Rational {
            Rational(&self.0 * &self.0)
        }
        pub fn signum(self) -> Rational {
            Rational::from(if self.0.is(ZERO) { 0 } else if self.0.is(POS) { 1 } else { -1 })
        }
        pub fn cmp_abs(&self, o: &Rational) -> Ordering {
            self.clone().abs().cmp(&o.clone().abs())
        }
        pub fn recip(self) -> Rational {
            Rational(over(&Sym::rat(::rug::Rational::from(1)), &self.0))
        }
        /// truncates towards zero like mpq_get_d
        pub fn to_f64(&self) -> F64 {
            let t = &self.0;
            if let Some(c) = t.as_const() {
                return C(c.to_f64());
            }
            if let Some(i) = with(|c| c.dbl_ids.get(&key(t)).copied()) {
                return S(i);
            }
            if t.is(ZERO) {
                return C(0.0);
            }
            let k = key(t);
            if let Some(r) = with(|c| c.truncated.get(&k).copied()) {
                return match r {
                    Ok(i) => S(i),
                    Err(x) => C(x),
                };
            }
            let up = t.is(POS);
            let m = if up { t.clone() } else { -t };
            let r = if !(&con(two(1024)) - &m).is(POS) {
                C(if up { f64::INFINITY } else { f64::NEG_INFINITY })
            } else if (&con(two(-1074)) - &m).is(POS) {
                // zero, remembering where it came from
                with(|c| {
                    c.dbls.push(Dbl { v: Sym::default(), pre: vec![(t.clone(), true)], gap: None, below: None });
                    S(c.dbls.len() as u32 - 1)
                })
            } else {
                let r = fresh("~t");
                let a = if up { r.clone() } else { -&r };
                assume((&a - &con(two(-1074))).f(ZERO | POS));
                assume((&a - &(&(&m * &con(1 - two(-52))) - &con(two(-1074)))).f(ZERO | POS));
                assume((&con(max_()) - &a).f(ZERO | POS));
                assume((&m - &a).f(ZERO | POS));
                F64::make(r, vec![(t.clone(), true)])
            };
            with(|c| c.truncated.insert(k, match r { S(i) => Ok(i), C(x) => Err(x) }));
            r
        }
        /// some positive common denominator, not necessarily the reduced one
        fn den(&self) -> Sym {
            if let Some(c) = self.0.as_const() {
                return Sym::rat(::rug::Rational::from(c.denom().clone()));
            }
            let k = key(&self.0);
            if let Some(d) = with(|c| c.denoms.get(&k).cloned()) {
                return d;
            }
            // equal values have the same denominator
            let known: Vec<(Sym, Sym)> = with(|c| c.rats.clone());
            let d = match known.iter().find(|(v, _)| (v - &self.0).is(ZERO)) {
                Some((_, d)) => d.clone(),
                None => {
                    let d = fresh("~d");
                    assume(d.f(POS));
                    d
                }
            };
            with(|c| c.rats.push((self.0.clone(), d.clone())));
            with(|c| c.denoms.insert(k, d.clone()));
            d
        }
        pub fn numer(&self) -> Integer {
            Integer(&self.0 * &self.den())
        }
        pub fn denom(&self) -> Integer {
            Integer(self.den())
        }
    }
    impl Integer {
        /// digits of the absolute value: the same for equal values
        pub fn to_digits<T: From<u8>>(&self, _: integer::Order) -> Vec<T> {
            let a = if self.0.is(NEG) { -&self.0 } else { self.0.clone() };
            vec![T::from(ident(&a) as u8)]
        }
        pub fn is_zero(&self) -> bool {
            self.0.is(ZERO)
        }
        pub fn is_negative(&self) -> bool {
            self.0.is(NEG)
        }
        pub fn is_positive(&self) -> bool {
            self.0.is(POS)
        }
    }
    macro_rules! field {
        ($t:ident: $($tr:ident $m:ident $tra:ident $ma:ident $op:expr;)*) => {$(
            impl $tr for $t { type Output = $t; fn $m(self, o: $t) -> $t { $t($op(&self.0, &o.0)) } }
            impl<'a> $tr<&'a $t> for $t { type Output = $t; fn $m(self, o: &'a $t) -> $t { $t($op(&self.0, &o.0)) } }
            impl<'a> $tr<$t> for &'a $t { type Output = $t; fn $m(self, o: $t) -> $t { $t($op(&self.0, &o.0)) } }
            impl<'a, 'b> $tr<&'b $t> for &'a $t { type Output = $t; fn $m(self, o: &'b $t) -> $t { $t($op(&self.0, &o.0)) } }
            impl $tra for $t { fn $ma(&mut self, o: $t) { self.0 = $op(&self.0, &o.0) } }
            impl<'a> $tra<&'a $t> for $t { fn $ma(&mut self, o: &'a $t) { self.0 = $op(&self.0, &o.0) } }
        )*
            impl Neg for $t { type Output = $t; fn neg(self) -> $t { $t(-&self.0) } }
            impl<'a> Neg for &'a $t { type Output = $t; fn neg(self) -> $t { $t(-&self.0) } }
            impl PartialEq for $t { fn eq(&self, o: &$t) -> bool { (&self.0 - &o.0).is(ZERO) } }
            impl Eq for $t {}
            impl PartialOrd for $t {
                fn partial_cmp(&self, o: &$t) -> Option<Ordering> { self.0.partial_cmp(&o.0) }
                fn lt(&self, o: &$t) -> bool { (&self.0 - &o.0).is(NEG) }
                fn le(&self, o: &$t) -> bool { (&self.0 - &o.0).is(NEG | ZERO) }
                fn gt(&self, o: &$t) -> bool { (&self.0 - &o.0).is(POS) }
                fn ge(&self, o: &$t) -> bool { (&self.0 - &o.0).is(POS | ZERO) }
            }
            impl Ord for $t { fn cmp(&self, o: &$t) -> Ordering { self.partial_cmp(o).unwrap() } }
            impl PartialEq<i32> for $t { fn eq(&self, o: &i32) -> bool { (&self.0 - &Sym::rat(::rug::Rational::from(*o))).is(ZERO) } }
            impl PartialOrd<i32> for $t { fn partial_cmp(&self, o: &i32) -> Option<Ordering> { self.0.partial_cmp(&Sym::rat(::rug::Rational::from(*o))) } }
            impl From<i32> for $t { fn from(v: i32) -> $t { $t(Sym::rat(::rug::Rational::from(v))) } }
            impl From<i64> for $t { fn from(v: i64) -> $t { $t(Sym::rat(::rug::Rational::from(v))) } }
        };
    }
    fn plus(a: &Sym, b: &Sym) -> Sym {
        a + b
    }
    fn minus(a: &Sym, b: &Sym) -> Sym {
        a - b
    }
    fn times(a: &Sym, b: &Sym) -> Sym {
        a * b
    }
    fn over(a: &Sym, b: &Sym) -> Sym {
        if b.is(ZERO) {
            panic!("division by zero");
        }
        quot(a, b)
    }
    field!(Rational: Add add AddAssign add_assign plus; Sub sub SubAssign sub_assign minus; Mul mul MulAssign mul_assign times; Div div DivAssign div_assign over;);
    field!(Integer: Add add AddAssign add_assign plus; Sub sub SubAssign sub_assign minus; Mul mul MulAssign mul_assign times;);
    impl From<(i32, i32)> for Rational {
        fn from(v: (i32, i32)) -> Rational {
            if v.1 == 0 {
                panic!("division by zero");
            }
            Rational(Sym::rat(::rug::Rational::from(v)))
        }
    }
    impl From<(i64, i64)> for Rational {
        fn from(v: (i64, i64)) -> Rational {
            if v.1 == 0 {
                panic!("division by zero");
            }
            Rational(Sym::rat(::rug::Rational::from(v)))
        }
    }
    impl Default for Rational {
        fn default() -> Rational {
            Rational::new()
        }
    }
    impl std::fmt::Debug for Rational {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "rational")
        }
    }
    impl std::fmt::Display for Rational {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "rational")
        }
    }
}
