//! `Sym`: symbolic exact ordered-field scalar implementing the library's `Scalar` trait.
use crate::engine::*;
use crate::poly::Poly;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::{FromRef, RefInto, Scalar};
use cgar::operations::{Abs, One, Zero};
use num_traits::ToPrimitive;
use rug::Rational;
use std::cmp::Ordering;
use std::ops::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Sym {
    pub num: Poly,
    /// canonical polynomials, each known to be non-zero on the current path
    pub den: Rc<Vec<Poly>>,
    /// when known: the value is a sum of squares that vanish exactly when these polynomials do
    pub sos: Option<Rc<Vec<Poly>>>,
}

fn msub(a: &[Poly], b: &[Poly]) -> Vec<Poly> {
    // multiset a - b
    let mut r: Vec<Poly> = a.to_vec();
    for x in b {
        if let Some(i) = r.iter().position(|y| y == x) {
            r.remove(i);
        }
    }
    r
}
fn prod(v: &[Poly]) -> Poly {
    let mut r = Poly::int(1);
    for x in v {
        r = r.mul(x)
    }
    r
}
fn cancel(mut num: Poly, den: &[Poly]) -> Sym {
    if num.is_zero() {
        return Sym { num, den: Rc::new(vec![]), sos: None };
    }
    let mut out: Vec<Poly> = vec![];
    for d in den {
        if num.len() >= 1 && num.len() * d.len() <= 60000 {
            if let Some(q) = num.div_exact(d) {
                num = q;
                continue;
            }
        }
        out.push(d.clone());
    }
    sort_den(&mut out);
    Sym { num, den: Rc::new(out), sos: None }
}
fn sort_den(v: &mut Vec<Poly>) {
    if v.len() > 1 {
        v.sort_by(|x, y| x.len().cmp(&y.len()).then_with(|| x.0.cmp(&y.0)));
    }
}

impl Sym {
    pub fn from_poly(p: Poly) -> Sym {
        Sym { num: p, den: Rc::new(vec![]), sos: None }
    }
    pub fn rat(r: Rational) -> Sym {
        Sym::from_poly(Poly::constant(r))
    }
    pub fn var(name: &str) -> Sym {
        Sym::from_poly(with(|c| c.fresh(name)))
    }
    pub fn as_const(&self) -> Option<Rational> {
        if self.den.is_empty() { self.num.as_const() } else { None }
    }
    fn padd(&self, o: &Sym, k: i32) -> Sym {
        let mut r = self.padd0(o, k);
        if o.num.is_zero() {
            r.sos = self.sos.clone();
        } else if k == 1 {
            if self.num.is_zero() {
                r.sos = o.sos.clone();
            } else if let (Some(a), Some(b)) = (&self.sos, &o.sos) {
                let mut v = a.to_vec();
                v.extend(b.iter().cloned());
                r.sos = Some(Rc::new(v));
                r.note_sos();
            }
        }
        r
    }
    /// a sum of squares is non-negative
    fn note_sos(&self) {
        if self.odd_dens().is_empty() && self.num.as_const().is_none() {
            with(|c| c.lemma(&self.num, ZERO | POS));
        }
    }
    fn padd0(&self, o: &Sym, k: i32) -> Sym {
        if self.den.is_empty() && o.den.is_empty() {
            return Sym::from_poly(self.num.add_scaled(&o.num, k));
        }
        if self.den == o.den {
            return cancel(self.num.add_scaled(&o.num, k), &self.den);
        }
        let only_b = msub(&o.den, &self.den);
        let only_a = msub(&self.den, &o.den);
        let n = self.num.mul(&prod(&only_b)).add_scaled(&o.num.mul(&prod(&only_a)), k);
        let mut den: Vec<Poly> = self.den.to_vec();
        den.extend(only_b);
        cancel(n, &den)
    }
    fn pmul(&self, o: &Sym) -> Sym {
        let same = self.num == o.num;
        let (a, b) = if self.den.is_empty() && o.den.is_empty() {
            (self.clone(), o.clone())
        } else {
            let x = cancel(self.num.clone(), &o.den);
            let y = cancel(o.num.clone(), &self.den);
            // x.den are o's remaining factors, y.den are self's remaining factors
            (Sym { num: x.num, den: y.den, sos: None }, Sym { num: y.num, den: x.den, sos: None })
        };
        let n = a.num.mul(&b.num);
        // propagate known signs to the product
        if a.num.as_const().is_none() && b.num.as_const().is_none() {
            with(|c| {
                let ma = c.mask_of(&a.num);
                let m = if same && a.num == b.num {
                    (ma & ZERO) | if ma & (NEG | POS) != 0 { POS } else { 0 }
                } else {
                    mul_mask(ma, c.mask_of(&b.num))
                };
                if m != 7 {
                    c.lemma(&n, m);
                }
            });
        }
        let mut den = a.den.to_vec();
        den.extend(b.den.iter().cloned());
        sort_den(&mut den);
        let sos = if same && self.den == o.den && a.num.as_const().is_none() { Some(Rc::new(vec![a.num.clone()])) } else { None };
        Sym { num: n, den: Rc::new(den), sos }
    }
    fn pdiv(&self, o: &Sym) -> Sym {
        if o.num.is_zero() {
            panic!("division by zero");
        }
        // division by zero is an obligation: the path with a zero divisor panics like the exact type does
        let nz = with(|c| c.decide(&o.num, NEG | POS));
        if !nz {
            panic!("division by zero");
        }
        if let Some(c) = o.num.as_const() {
            let inv = Rational::from(1 / c);
            let t = self.num.mul(&prod(&o.den)).scale(&inv);
            return cancel(t, &self.den);
        }
        let (c, k) = o.num.canon();
        let mut den = msub(&self.den, &o.den);
        let numf = msub(&o.den, &self.den);
        let n = self.num.mul(&prod(&numf)).scale(&Rational::from(1 / k));
        let sp = with(|x| x.split_factors(&c));
        let mut n = n;
        if sp.0.is_empty() {
            den.push(c);
        } else {
            for (f, m) in &sp.0 {
                for _ in 0..*m {
                    den.push(f.clone());
                }
            }
            match sp.1.as_const() {
                Some(k) => n = n.scale(&Rational::from(1 / k)),
                None => {
                    let (r, k) = sp.1.canon();
                    n = n.scale(&Rational::from(1 / k));
                    den.push(r);
                }
            }
        }
        cancel(n, &den)
    }
    fn pneg(&self) -> Sym {
        Sym { num: self.num.neg(), den: self.den.clone(), sos: None }
    }
    /// denominators with odd multiplicity
    pub fn odd_dens(&self) -> Vec<Poly> {
        let mut out: Vec<Poly> = vec![];
        for d in self.den.iter() {
            if let Some(i) = out.iter().position(|x| x == d) {
                out.remove(i);
            } else {
                out.push(d.clone())
            }
        }
        out
    }
    /// decide sign membership, forking
    pub fn is(&self, want: u8) -> bool {
        let mut want = want;
        if want != ZERO && want != (NEG | POS) {
            for d in self.odd_dens() {
                if !with(|c| c.decide(&d, POS)) {
                    want = flip_mask(want);
                }
            }
        }
        let r = with(|c| c.decide(&self.num, want));
        if let Some(b) = &self.sos {
            // not positive: every square vanishes
            let mut m = with(|c| c.mask_of(&self.num));
            for d in self.odd_dens() {
                m = mul_mask(m, with(|c| c.mask_of(&d)) & !ZERO);
            }
            if m & POS == 0 {
                for x in b.iter() {
                    with(|c| c.derive_zero(x));
                }
            }
        }
        r
    }
    /// formula: sign in mask
    pub fn f(&self, mask: u8) -> F {
        if let Some(c) = self.as_const() {
            let s = if c < 0 { NEG } else if c == 0 { ZERO } else { POS };
            return if mask & s != 0 { F::True } else { F::False };
        }
        let mut num = self.num.clone();
        let mut dens = self.odd_dens();
        let sp = with(|c| c.split_factors(&num));
        if !sp.0.is_empty() {
            // factors known to be non-zero only contribute their sign
            num = sp.1.clone();
            for (f, n) in &sp.0 {
                if with(|c| c.mask_of(f)) & ZERO == 0 {
                    if n % 2 == 1 {
                        match dens.iter().position(|x| x == f) {
                            Some(i) => {
                                dens.remove(i);
                            }
                            None => dens.push(f.clone()),
                        }
                    }
                } else {
                    for _ in 0..*n {
                        num = num.mul(f);
                    }
                }
            }
            if let Some(c) = num.as_const() {
                if c == 0 {
                    return if mask & ZERO != 0 { F::True } else { F::False };
                }
            }
        }
        if mask == ZERO || mask == (NEG | POS) {
            dens.clear();
        }
        F::Atom(num, Rc::new(dens), mask)
    }
    /// nondeterministic enclosing interval between neighbouring representative doubles, or none
    pub fn interval(&self) -> Option<(f64, f64)> {
        if let Some(c) = self.as_const() {
            let v = c.to_f64();
            if Rational::from_f64(v).as_ref() == Some(&c) {
                return Some((v, v));
            }
            return None;
        }
        if with(|c| c.whole_line) {
            return Some((f64::NEG_INFINITY, f64::INFINITY));
        }
        let set = with(|c| c.approx_set.clone());
        if set.len() < 2 {
            return None;
        }
        let key = (self.num.clone(), self.den.to_vec());
        let k = match with(|c| c.intervals.get(&key).copied()) {
            Some(k) => k,
            None => {
                with(|c| c.stats.approx_used += 1);
                let k = with(|c| c.choose_internal(set.len()));
                if k > 0 {
                    let (lo, hi) = (Sym::rat(Rational::from_f64(set[k - 1]).unwrap()), Sym::rat(Rational::from_f64(set[k]).unwrap()));
                    let (f, g) = ((self - &lo).f(ZERO | POS), (&hi - self).f(ZERO | POS));
                    with(|c| {
                        c.assume(&f);
                        c.assume(&g);
                    });
                }
                with(|c| c.intervals.insert(key, k));
                k
            }
        };
        if k == 0 { None } else { Some((set[k - 1], set[k])) }
    }
    /// nondeterministic double approximation (same value -> same answer on a path)
    pub fn approx(&self, allow_none: bool) -> Option<f64> {
        if let Some(c) = self.as_const() {
            return Some(c.to_f64());
        }
        let key = (self.num.clone(), self.den.to_vec());
        if let Some(v) = with(|c| c.approx.get(&key).copied()) {
            return v.or(if allow_none { None } else { Some(0.0) });
        }
        if with(|c| c.script.is_some()) {
            let v = with(|c| {
                c.stats.approx_used += 1;
                let v = c.script.as_mut().unwrap().pop_front().flatten();
                c.approx.insert(key, v);
                v
            });
            return v.or(if allow_none { None } else { Some(0.0) });
        }
        let set = with(|c| {
            c.stats.approx_used += 1;
            c.approx_set.clone()
        });
        if set.is_empty() && !allow_none {
            std::panic::panic_any(Unsupported("double approximation of a symbolic value".into()));
        }
        let n = set.len() + if allow_none { 1 } else { 0 };
        let k = with(|c| c.choose_internal(n));
        let v = set.get(k).copied();
        if let Some(x) = v {
            if x > 0.0 {
                let f = self.f(POS);
                with(|c| c.assume(&f));
            } else if x < 0.0 {
                let f = self.f(NEG);
                with(|c| c.assume(&f));
            }
        }
        with(|c| c.approx.insert(key, v));
        v
    }
}

macro_rules! bin {
    ($tr:ident, $m:ident, $e:expr) => {
        impl $tr<Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                let f: fn(&Sym, &Sym) -> Sym = $e;
                f(&self, &o)
            }
        }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym {
            type Output = Sym;
            fn $m(self, o: &'b Sym) -> Sym {
                let f: fn(&Sym, &Sym) -> Sym = $e;
                f(self, o)
            }
        }
    };
}
bin!(Add, add, |a, b| a.padd(b, 1));
bin!(Sub, sub, |a, b| a.padd(b, -1));
bin!(Mul, mul, |a, b| a.pmul(b));
bin!(Div, div, |a, b| a.pdiv(b));
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        self.pneg()
    }
}
impl<'a> Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        self.pneg()
    }
}
impl<'a> AddAssign<&'a Sym> for Sym {
    fn add_assign(&mut self, o: &Sym) {
        *self = self.padd(o, 1)
    }
}
impl<'a> SubAssign<&'a Sym> for Sym {
    fn sub_assign(&mut self, o: &Sym) {
        *self = self.padd(o, -1)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        Sym::rat(Rational::new())
    }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sym")
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.padd(o, -1).is(ZERO)
    }
}
impl Eq for Sym {}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        let d = self.padd(o, -1);
        Some(if d.is(NEG) {
            Ordering::Less
        } else if d.is(ZERO) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Sym) -> bool {
        self.padd(o, -1).is(NEG)
    }
    fn le(&self, o: &Sym) -> bool {
        self.padd(o, -1).is(NEG | ZERO)
    }
    fn gt(&self, o: &Sym) -> bool {
        self.padd(o, -1).is(POS)
    }
    fn ge(&self, o: &Sym) -> bool {
        self.padd(o, -1).is(POS | ZERO)
    }
}
impl std::hash::Hash for Sym {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        self.approx(false).map(|x| x as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        self.approx(false).map(|x| x as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        self.approx(false)
    }
}
impl Abs for Sym {
    fn abs(&self) -> Sym {
        if self.is(NEG) { self.pneg() } else { self.clone() }
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym::default()
    }
    fn is_zero(&self) -> bool {
        self.is(ZERO)
    }
    fn is_positive(&self) -> bool {
        self.is(POS)
    }
    fn is_negative(&self) -> bool {
        self.is(NEG)
    }
    fn is_positive_or_zero(&self) -> bool {
        self.is(POS | ZERO)
    }
    fn is_negative_or_zero(&self) -> bool {
        self.is(NEG | ZERO)
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym::rat(Rational::from(1))
    }
}
impl From<i32> for Sym {
    fn from(v: i32) -> Sym {
        Sym::rat(Rational::from(v))
    }
}
impl From<f64> for Sym {
    fn from(v: f64) -> Sym {
        Sym::rat(Rational::from_f64(v).expect("Invalid f64 value"))
    }
}
impl From<Rational> for Sym {
    fn from(v: Rational) -> Sym {
        Sym::rat(v)
    }
}
impl From<CgarF64> for Sym {
    fn from(v: CgarF64) -> Sym {
        Sym::from(v.0)
    }
}
impl From<CgarRational> for Sym {
    fn from(v: CgarRational) -> Sym {
        Sym::rat(v.0)
    }
}
impl From<LazyExact> for Sym {
    fn from(v: LazyExact) -> Sym {
        Sym::rat(v.exact().0)
    }
}
impl From<Sym> for CgarF64 {
    fn from(v: Sym) -> CgarF64 {
        CgarF64(v.approx(false).unwrap())
    }
}
impl FromRef<CgarF64> for Sym {
    fn from_ref(v: &CgarF64) -> Sym {
        Sym::from(v.0)
    }
}
impl FromRef<CgarRational> for Sym {
    fn from_ref(v: &CgarRational) -> Sym {
        Sym::rat(v.0.clone())
    }
}
impl FromRef<LazyExact> for Sym {
    fn from_ref(v: &LazyExact) -> Sym {
        Sym::rat(v.exact().0)
    }
}
impl RefInto<CgarF64> for Sym {
    fn ref_into(&self) -> CgarF64 {
        CgarF64(self.approx(false).unwrap())
    }
}
impl RefInto<CgarRational> for Sym {
    fn ref_into(&self) -> CgarRational {
        match self.as_const() {
            Some(c) => CgarRational(c),
            None => std::panic::panic_any(Unsupported("conversion of a symbolic value to a rational".into())),
        }
    }
}
impl RefInto<LazyExact> for Sym {
    fn ref_into(&self) -> LazyExact {
        match self.as_const() {
            Some(c) => LazyExact::from(c),
            None => std::panic::panic_any(Unsupported("conversion of a symbolic value to a lazy number".into())),
        }
    }
}
fn k(v: CgarRational) -> Sym {
    Sym::rat(v.0)
}
impl Scalar for Sym {
    fn sign(&self) -> i8 {
        if self.is(POS) {
            1
        } else if self.is(NEG) {
            -1
        } else {
            0
        }
    }
    fn from_num_den(num: i32, den: i32) -> Sym {
        k(CgarRational::from_num_den(num, den))
    }
    fn cmp_ref(a: &Sym, b: &Sym) -> Ordering {
        a.partial_cmp(b).unwrap()
    }
    fn tolerance() -> Sym {
        k(CgarRational::tolerance())
    }
    fn tolerance_squared() -> Sym {
        k(CgarRational::tolerance_squared())
    }
    fn point_merge_threshold() -> Sym {
        if with(|c| c.merge_zero) { Sym::default() } else { k(CgarRational::point_merge_threshold()) }
    }
    fn edge_degeneracy_threshold() -> Sym {
        k(CgarRational::edge_degeneracy_threshold())
    }
    fn area_degeneracy_threshold() -> Sym {
        k(CgarRational::area_degeneracy_threshold())
    }
    fn query_tolerance() -> Sym {
        k(CgarRational::query_tolerance())
    }
    fn query_tolerance_squared() -> Sym {
        k(CgarRational::query_tolerance_squared())
    }
    fn point_merge_threshold_squared() -> Sym {
        if with(|c| c.merge_zero) { Sym::default() } else { k(CgarRational::point_merge_threshold_squared()) }
    }
    fn approx_eq(&self, o: &Sym) -> bool {
        self.padd(o, -1).is(ZERO)
    }
    fn as_f64_fast(&self) -> Option<f64> {
        self.approx(true)
    }
    fn double_interval(&self) -> Option<(f64, f64)> {
        self.interval()
    }
    fn ball_center_f64(&self) -> f64 {
        self.approx(false).unwrap()
    }
}
