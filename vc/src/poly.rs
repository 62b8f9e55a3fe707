//! Multivariate polynomials with rational coefficients in canonical (sorted) form.
use rug::{Integer, Rational};
use smallvec::SmallVec;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Sorted list of variable indices with repetition (x*x*y = [0,0,1]).
pub type Mono = SmallVec<[u8; 14]>;

pub fn mono_cmp(a: &Mono, b: &Mono) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| {
        // graded lexicographic: smaller variable index ranks higher
        for (x, y) in a.iter().zip(b.iter()) {
            match y.cmp(x) {
                Ordering::Equal => {}
                o => return o,
            }
        }
        Ordering::Equal
    })
}
fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Mono::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] <= b[j] {
            r.push(a[i]);
            i += 1
        } else {
            r.push(b[j]);
            j += 1
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}
fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Mono::new();
    let mut j = 0;
    for &x in a.iter() {
        if j < b.len() && b[j] == x {
            j += 1
        } else {
            r.push(x)
        }
    }
    if j == b.len() { Some(r) } else { None }
}

const MEMO: usize = 60000;
thread_local! {
    static MUL: std::cell::RefCell<ahash::AHashMap<(Poly, Poly), Poly>> = Default::default();
    static DIV: std::cell::RefCell<ahash::AHashMap<(Poly, Poly), Option<Poly>>> = Default::default();
}
/// Terms sorted by descending monomial.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly(pub Rc<Vec<(Mono, Rational)>>);

impl Poly {
    pub fn zero() -> Poly {
        Poly(Rc::new(vec![]))
    }
    pub fn constant(c: Rational) -> Poly {
        if c == 0 {
            return Poly::zero();
        }
        Poly(Rc::new(vec![(Mono::new(), c)]))
    }
    pub fn int(c: i64) -> Poly {
        Poly::constant(Rational::from(c))
    }
    pub fn var(v: u8) -> Poly {
        let mut m = Mono::new();
        m.push(v);
        Poly(Rc::new(vec![(m, Rational::from(1))]))
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Rational> {
        match self.0.len() {
            0 => Some(Rational::new()),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1.clone()),
            _ => None,
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn degree(&self) -> usize {
        self.0.first().map(|t| t.0.len()).unwrap_or(0)
    }
    pub fn add_scaled(&self, o: &Poly, k: i32) -> Poly {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match mono_cmp(&a[i].0, &b[j].0) {
                Ordering::Greater => {
                    r.push(a[i].clone());
                    i += 1
                }
                Ordering::Less => {
                    r.push((b[j].0.clone(), Rational::from(&b[j].1 * k)));
                    j += 1
                }
                Ordering::Equal => {
                    let c = Rational::from(&a[i].1 + Rational::from(&b[j].1 * k));
                    if c != 0 {
                        r.push((a[i].0.clone(), c))
                    }
                    i += 1;
                    j += 1
                }
            }
        }
        r.extend_from_slice(&a[i..]);
        for t in &b[j..] {
            r.push((t.0.clone(), Rational::from(&t.1 * k)))
        }
        Poly(Rc::new(r))
    }
    pub fn add(&self, o: &Poly) -> Poly {
        self.add_scaled(o, 1)
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add_scaled(o, -1)
    }
    pub fn neg(&self) -> Poly {
        Poly(Rc::new(
            self.0.iter().map(|(m, c)| (m.clone(), Rational::from(-c))).collect(),
        ))
    }
    pub fn scale(&self, k: &Rational) -> Poly {
        if *k == 0 {
            return Poly::zero();
        }
        Poly(Rc::new(
            self.0.iter().map(|(m, c)| (m.clone(), Rational::from(c * k))).collect(),
        ))
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if self.is_zero() || o.is_zero() {
            return Poly::zero();
        }
        if let Some(c) = self.as_const() {
            return o.scale(&c);
        }
        if let Some(c) = o.as_const() {
            return self.scale(&c);
        }
        let big = self.len() * o.len() > 100;
        if big {
            if let Some(r) = MUL.with(|m| m.borrow().get(&(self.clone(), o.clone())).cloned()) {
                return r;
            }
        }
        let mut acc: ahash::AHashMap<Mono, Rational> = ahash::AHashMap::new();
        for (m1, c1) in self.0.iter() {
            for (m2, c2) in o.0.iter() {
                let m = mono_mul(m1, m2);
                *acc.entry(m).or_insert_with(Rational::new) += Rational::from(c1 * c2);
            }
        }
        let mut v: Vec<_> = acc.into_iter().filter(|(_, c)| *c != 0).collect();
        v.sort_by(|a, b| mono_cmp(&b.0, &a.0));
        let r = Poly(Rc::new(v));
        if big {
            MUL.with(|m| {
                let mut m = m.borrow_mut();
                if m.len() > MEMO {
                    m.clear();
                }
                m.insert((self.clone(), o.clone()), r.clone());
            });
        }
        r
    }
    /// Exact division; None if `d` does not divide `self`.
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        if let Some(c) = d.as_const() {
            return Some(self.scale(&Rational::from(1 / c)));
        }
        if d.degree() > self.degree() {
            return None;
        }
        // trailing terms must divide as well (cheap rejection)
        let (tl, dl) = (self.0.last().unwrap(), d.0.last().unwrap());
        mono_div(&tl.0, &dl.0)?;
        mono_div(&self.0[0].0, &d.0[0].0)?;
        let big = self.len() * d.len() > 100;
        if big {
            if let Some(r) = DIV.with(|m| m.borrow().get(&(self.clone(), d.clone())).cloned()) {
                return r;
            }
        }
        let r = self.div_raw(d);
        if big {
            DIV.with(|m| {
                let mut m = m.borrow_mut();
                if m.len() > MEMO {
                    m.clear();
                }
                m.insert((self.clone(), d.clone()), r.clone());
            });
        }
        r
    }
    fn div_raw(&self, d: &Poly) -> Option<Poly> {
        let lead = &d.0[0];
        let mut rem: BTreeMap<Key, Rational> =
            self.0.iter().map(|(m, c)| (Key(m.clone()), c.clone())).collect();
        let mut q = vec![];
        while let Some((k, c)) = rem.pop_last() {
            if c == 0 {
                continue;
            }
            let m = mono_div(&k.0, &lead.0)?;
            let cq = Rational::from(&c / &lead.1);
            for (dm, dc) in d.0.iter().skip(1) {
                let key = Key(mono_mul(dm, &m));
                let e = rem.entry(key).or_insert_with(Rational::new);
                *e -= Rational::from(dc * &cq);
            }
            q.push((m, cq));
        }
        q.sort_by(|a, b| mono_cmp(&b.0, &a.0));
        Some(Poly(Rc::new(q)))
    }
    /// r with r*r = self, if there is one
    pub fn sqrt_exact(&self) -> Option<Poly> {
        if self.is_zero() || self.degree() % 2 == 1 {
            return None;
        }
        fn rsqrt(c: &Rational) -> Option<Rational> {
            if *c <= 0 || !c.numer().is_perfect_square() || !c.denom().is_perfect_square() {
                return None;
            }
            Some(Rational::from((c.numer().clone().sqrt(), c.denom().clone().sqrt())))
        }
        fn msqrt(m: &Mono) -> Option<Mono> {
            if m.len() % 2 == 1 {
                return None;
            }
            let mut r = Mono::new();
            for c in m.chunks(2) {
                if c[0] != c[1] {
                    return None;
                }
                r.push(c[0]);
            }
            Some(r)
        }
        let tl = self.0.last().unwrap();
        msqrt(&tl.0)?;
        rsqrt(&tl.1)?;
        let (lm, lc) = (msqrt(&self.0[0].0)?, rsqrt(&self.0[0].1)?);
        let mut r = Poly(Rc::new(vec![(lm.clone(), lc.clone())]));
        let two = Rational::from(2 * &lc);
        let mut rem = self.sub(&r.mul(&r));
        while !rem.is_zero() {
            let (m, c) = rem.0[0].clone();
            let t = Poly(Rc::new(vec![(mono_div(&m, &lm)?, Rational::from(&c / &two))]));
            if mono_cmp(&t.0[0].0, &r.0.last().unwrap().0) != Ordering::Less || r.len() > 200 {
                return None;
            }
            // (r + t)^2 = r^2 + 2 r t + t^2
            rem = rem.sub(&r.mul(&t).scale(&Rational::from(2))).sub(&t.mul(&t));
            r = r.add(&t);
        }
        Some(r)
    }
    /// (primitive part with positive leading coefficient, rational factor): self = factor * prim
    pub fn canon(&self) -> (Poly, Rational) {
        if self.is_zero() {
            return (self.clone(), Rational::from(1));
        }
        let mut l = Integer::from(1);
        for (_, c) in self.0.iter() {
            l.lcm_mut(c.denom());
        }
        let mut g = Integer::new();
        for (_, c) in self.0.iter() {
            let n = Integer::from(c.numer() * &l) / c.denom();
            g.gcd_mut(&n);
        }
        let mut f = Rational::from((g, l));
        if self.0[0].1 < 0 {
            f = -f
        }
        let inv = Rational::from(1 / &f);
        (self.scale(&inv), f)
    }
    pub fn eval(&self, vals: &[Rational]) -> Rational {
        let mut s = Rational::new();
        for (m, c) in self.0.iter() {
            let mut t = c.clone();
            for &v in m.iter() {
                t *= &vals[v as usize];
            }
            s += t;
        }
        s
    }
    pub fn show(&self, names: &[String]) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = String::new();
        for (i, (m, c)) in self.0.iter().enumerate() {
            if i > 0 {
                s.push_str(" + ")
            }
            if i > 12 {
                s.push_str(&format!("... ({} terms)", self.len()));
                break;
            }
            s.push_str(&c.to_string());
            for &v in m.iter() {
                s.push('*');
                s.push_str(names.get(v as usize).map(|x| x.as_str()).unwrap_or("?"));
            }
        }
        s
    }
}

#[derive(Clone, PartialEq, Eq)]
struct Key(Mono);
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Self) -> Ordering {
        mono_cmp(&self.0, &o.0)
    }
}
