PRE='''#![allow(unused_imports,dead_code)]
use cgar::numeric::{cgar_f64::CgarF64 as D, cgar_rational::CgarRational as Q, scalar::Scalar}; use cgar::operations::*; use rug::Rational; use cgar::geometry::util::*;
use std::hash::{Hash,Hasher}; fn h<T:Hash>(x:&T)->u64{ let mut s=std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() }
'''
SEEDS=[
dict(id="c03-zero-hash",property="C03",needs="the two zeros 0.0 and -0.0",
 breaks="0.0 and -0.0 compare equal but hash differently",
 edits=[("src/numeric/cgar_f64.rs","self.0.to_bits() == other.0.to_bits() // Comparing","self.0 == other.0 // Comparing")],
 demo=PRE+'''fn main(){ let (a,b)=(D(0.0),D(-0.0)); assert!(a!=b || h(&a)==h(&b)); }'''),
dict(id="c03-cmp-f64",property="C03",needs="two different rationals that truncate to the same double",
 breaks="the reference order of rationals is taken from their double approximations",
 edits=[("src/numeric/cgar_rational.rs","        (a.0.numer().clone() * b.0.denom().clone())\n            .cmp(&(b.0.numer().clone() * a.0.denom().clone()))","        let (x, y) = (a.0.to_f64(), b.0.to_f64());\n        if x != y {\n            return if x < y { Ordering::Less } else { Ordering::Greater };\n        }\n        (a.0.numer().clone() * b.0.denom().clone())\n            .cmp(&(a.0.numer().clone() * b.0.denom().clone()))")],
 demo=PRE+'''fn main(){ let a=Q::from(Rational::from((1,3))); let b=Q::from(Rational::from((1,3))+Rational::from((1i64,1i64<<62))/Rational::from(1i64<<62)); assert!(Q::cmp_ref(&a,&b)==std::cmp::Ordering::Less); }'''),
dict(id="c03-next-down-neg",property="C03",needs="stepping down from a negative double",
 breaks="stepping down from a negative double moves up",
 edits=[("src/geometry/util.rs","    if x > 0.0 {\n        bits -= 1;\n    } else {\n        bits += 1;\n    }","    if x > 0.0 || x.is_sign_negative() {\n        bits -= 1;\n    } else {\n        bits += 1;\n    }")],
 demo=PRE+'''fn main(){ assert!(f64_next_down(-1.5) < -1.5); assert!(f64_next_down(1.5) < 1.5); }'''),
dict(id="c03-truncated-source",property="C03",needs="converting a double with more than 24 significant bits into a rational by reference",
 breaks="doubles converted to rationals by reference are rounded to single precision",
 edits=[("src/numeric/cgar_rational.rs","    fn from_ref(value: &CgarF64) -> Self {\n        CgarRational(Rational::from_f64(value.0)","    fn from_ref(value: &CgarF64) -> Self {\n        CgarRational(Rational::from_f64(value.0 as f32 as f64)")],
 demo=PRE+'''fn main(){ use cgar::numeric::scalar::FromRef; let q=<Q as FromRef<D>>::from_ref(&D(0.1)); assert!(q.0==Rational::from_f64(0.1).unwrap()); }'''),
]
