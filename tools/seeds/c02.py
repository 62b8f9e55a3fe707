PRE='''#![allow(unused_imports,dead_code)]
use cgar::numeric::{lazy_exact::LazyExact as L, cgar_rational::CgarRational as Q, scalar::Scalar, ball::Ball}; use cgar::operations::*; use rug::Rational;
fn val(l:&L)->Rational{ l.exact().0 }
'''
SEEDS=[
dict(id="c02-deep-sub",property="C02",needs="a difference whose expression depth exceeds the folding limit",
 breaks="a subtraction that is folded because the expression is too deep adds instead",
 edits=[("src/numeric/lazy_exact.rs","                Kind::Sub(a, b) => &a.exact() - &b.exact(),\n                Kind::Mul(a, b) => &a.exact() * &b.exact(),\n                Kind::Div(a, b) => {\n                    let d","                Kind::Sub(a, b) => &a.exact() + &b.exact(),\n                Kind::Mul(a, b) => &a.exact() * &b.exact(),\n                Kind::Div(a, b) => {\n                    let d")],
 demo=PRE+'''fn main(){ let t=L::from(0.1); let mut x=L::from(1.0); let mut e=Rational::from(1); let d=Rational::from_f64(0.1).unwrap();
 for _ in 0..2000 { x=&x-&t; e-=&d; } assert!(val(&x)==e); }'''),
dict(id="c02-ball-sub-radius",property="C02",needs="a difference whose second operand has a much larger rounding radius than the first",
 breaks="the enclosure of a difference ignores the uncertainty of the subtrahend, so signs are decided wrongly near cancellation",
 edits=[("src/numeric/ball.rs","self.add(Ball { m: -o.m, r: o.r })","self.add(Ball { m: -o.m, r: self.r })")],
 demo=PRE+'''fn main(){ let mut st:u64=1; for _ in 0..20000 { st=st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
 let a=((st>>11) as f64)/((1u64<<53) as f64); let b=1.0/3.0+a; let p=&(&L::from(a)*&L::from(b))*&L::from(1e3); let v=val(&p); let f=v.to_f64(); // p as an unevaluated expression again
 let p=&(&L::from(a)*&L::from(b))*&L::from(1e3); for g in [f, f64::from_bits(f.to_bits()+1)] { let d=&L::from(g)-&p; let e=Rational::from_f64(g).unwrap()-&v; let s=if e<0 {-1} else if e==0 {0} else {1}; assert!(d.sign()==s); } } }'''),
dict(id="c02-ulp-odd",property="C02",needs="a quotient whose rounded reciprocal has an odd last bit, compared with a neighbouring double",
 breaks="the size of one step is computed as zero for doubles with an odd last bit, so rounded reciprocals get no radius",
 edits=[("src/numeric/ball.rs","let up = f64::from_bits(x.to_bits() + 1);","let up = f64::from_bits(x.to_bits() | 1);")],
 demo=PRE+'''fn main(){ for a in 1..60i32 { for b in 1..200i32 { let f=a as f64/b as f64; for g in [f, f64::from_bits(f.to_bits()+1), f64::from_bits(f.to_bits()-1)] { let q=&L::from(a as f64)/&L::from(b as f64); let d=&q-&L::from(g);
 let e=Rational::from((a,b))-Rational::from_f64(g).unwrap(); let s=if e<0 {-1} else if e==0 {0} else {1}; assert!(d.sign()==s,"{} {}",a,b); } } } }'''),
dict(id="c02-zero-minus",property="C02",needs="an exactly known zero minus an unevaluated expression",
 breaks="zero minus an expression is simplified to the expression without its sign",
 edits=[("src/numeric/lazy_exact.rs","            Sub(a, b) => {\n                if b.is_exact_zero() {\n                    return a.clone().0.kind.clone();\n                }\n","            Sub(a, b) => {\n                if b.is_exact_zero() {\n                    return a.clone().0.kind.clone();\n                }\n                if a.is_exact_zero() && b.exact_ready().is_none() {\n                    return b.clone().0.kind.clone();\n                }\n")],
 demo=PRE+'''fn main(){ let z=L::zero(); let x=&L::from(0.5)*&L::from(0.25); assert!((&z-&x).sign()==-1); }'''),
]
