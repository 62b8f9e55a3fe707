// C03: the rational and the double-based number types.
use numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};
use numeric::scalar::{FromRef, RefInto, Scalar as _};
use operations::{Abs as _, One as _, Zero as _};
use geometry::util::{f64_next_down, f64_next_up};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn rats() -> (CgarRational, S, CgarRational, S) { let (x, y) = (var("x"), var("y")); (rat(&x), x, rat(&y), y) }
fn is(l: &str, r: &CgarRational, v: &S) { ensure(l, eq(&unrat(r), v)) }
fn order(o: Ordering, x: &S, y: &S) -> F { match o { Ordering::Less => lt(x, y), Ordering::Equal => eq(x, y), Ordering::Greater => lt(y, x) } }
fn hash_of<T: Hash>(x: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }

fn q_sum() {
    let (a, x, b, y) = rats();
    is("sum", &(&a + &b), &(&x + &y));
    is("sum of values", &(a.clone() + b.clone()), &(&x + &y));
    let mut c = a; c += &b;
    is("sum in place", &c, &(&x + &y));
}
fn q_diff() {
    let (a, x, b, y) = rats();
    is("difference", &(&a - &b), &(&x - &y));
    is("difference of values", &(a.clone() - b.clone()), &(&x - &y));
    let mut c = a; c -= &b;
    is("difference in place", &c, &(&x - &y));
}
fn q_prod() { let (a, x, b, y) = rats(); is("product", &(&a * &b), &(&x * &y)); is("product of values", &(a * b), &(&x * &y)); }
fn q_quot() {
    let (a, x, b, y) = rats();
    need(nonzero(&y));
    is("quotient", &(&a / &b), &quot(&x, &y));
    is("quotient of values", &(a / b), &quot(&x, &y));
}
fn q_neg() {
    let (a, x, ..) = rats();
    let m = &num(0) - &x;
    is("negation", &-&a, &m);
    is("negation of a value", &-a.clone(), &m);
    let r = unrat(&a.abs());
    ensure("absolute value", and(vec![nonneg(&r), or(vec![eq(&r, &x), eq(&r, &m)])]));
}
fn q_order() {
    let (a, x, b, y) = rats();
    match choose(5) {
        0 => ensure("partial order", match a.partial_cmp(&b) { Some(o) => order(o, &x, &y), None => ff() }),
        1 => ensure("reference order", order(CgarRational::cmp_ref(&a, &b), &x, &y)),
        2 => { ensure("equality", is_true_iff(a == b, eq(&x, &y))); ensure("inequality", is_true_iff(a != b, ne(&x, &y))); ensure("approximate equality", is_true_iff(a.approx_eq(&b), eq(&x, &y))); }
        3 => { ensure("<", is_true_iff(a < b, lt(&x, &y))); ensure("<=", is_true_iff(a <= b, le(&x, &y))); }
        _ => { ensure(">", is_true_iff(a > b, lt(&y, &x))); ensure(">=", is_true_iff(a >= b, le(&y, &x))); }
    }
}
fn q_minmax() {
    let (a, x, b, y) = rats();
    let (lo, hi) = (unrat(&a.clone().min(b.clone())), unrat(&a.max(b)));
    ensure("min", and(vec![le(&lo, &x), le(&lo, &y), or(vec![eq(&lo, &x), eq(&lo, &y)])]));
    ensure("max", and(vec![le(&x, &hi), le(&y, &hi), or(vec![eq(&hi, &x), eq(&hi, &y)])]));
}
fn q_sign() {
    let (a, x, ..) = rats();
    match choose(6) {
        0 => ensure("sign", match a.sign() { 1 => pos(&x), 0 => zero(&x), -1 => neg(&x), _ => ff() }),
        1 => ensure("zero", is_true_iff(a.is_zero(), zero(&x))),
        2 => ensure("positive", is_true_iff(a.is_positive(), pos(&x))),
        3 => ensure("negative", is_true_iff(a.is_negative(), neg(&x))),
        4 => ensure("positive or zero", is_true_iff(a.is_positive_or_zero(), nonneg(&x))),
        _ => ensure("negative or zero", is_true_iff(a.is_negative_or_zero(), nonpos(&x))),
    }
}
fn q_hash() {
    let (x, y) = (var("x"), var("y"));
    // the same value reached in two ways
    let (a, b) = match choose(3) { 0 => (rat(&x), rat(&y)), 1 => (&rat(&x) + &rat(&y), rat(&(&x + &y))), _ => (-&rat(&x), rat(&(&num(0) - &x))) };
    if a == b { ensure("equal values hash equally", bool_(hash_of(&a) == hash_of(&b))); } else { ensure("different", t()); }
}
fn q_from() {
    let (d, x) = (dbl("d"), var("x"));
    is("from a double", &CgarRational::from(d), &dval(d));
    is("from the double type", &CgarRational::from(CgarF64(d)), &dval(d));
    is("from a reference to the double type", &<CgarRational as FromRef<CgarF64>>::from_ref(&CgarF64(d)), &dval(d));
    is("double type into rational", &RefInto::<CgarRational>::ref_into(&CgarF64(d)), &dval(d));
    is("from a rational", &CgarRational::from(rat(&x).0), &x);
    is("from a reference to a rational", &<CgarRational as FromRef<CgarRational>>::from_ref(&rat(&x)), &x);
    is("rational into rational", &RefInto::<CgarRational>::ref_into(&rat(&x)), &x);
    let l = LazyExact::from(rat(&x));
    is("from a lazy number", &CgarRational::from(l.clone()), &x);
    is("from a reference to a lazy number", &<CgarRational as FromRef<LazyExact>>::from_ref(&l), &x);
    is("rational into lazy number", &RefInto::<LazyExact>::ref_into(&rat(&x)).exact(), &x);
}
const INTS: [i32; 12] = [0, 1, -1, 2, -2, 3, 10, -7, 1000, i32::MAX, i32::MIN + 1, 123456789];
fn from_ints() {
    let (n, m) = (INTS[choose(12)], INTS[choose(12)]);
    is("integer", &CgarRational::from(n), &num(n as i64));
    let d = CgarF64::from(n).0;
    ensure("integer as a double", eq(&dval(d), &num(n as i64)));
    if m != 0 {
        is("fraction", &CgarRational::from_num_den(n, m), &(&num(n as i64) / &num(m as i64)));
        ensure("fraction as a double", same(CgarF64::from_num_den(n, m).0, dnum(n as f64 / m as f64)));
    }
}
fn constants() {
    is("zero", &CgarRational::zero(), &num(0));
    is("one", &CgarRational::one(), &num(1));
    is("default", &CgarRational::default(), &num(0));
    is("tolerance", &CgarRational::tolerance(), &num(0));
    for (l, a, b) in [("tolerance squared", CgarRational::tolerance(), CgarRational::tolerance_squared()), ("query tolerance squared", CgarRational::query_tolerance(), CgarRational::query_tolerance_squared()), ("merge threshold squared", CgarRational::point_merge_threshold(), CgarRational::point_merge_threshold_squared())] {
        is(l, &b, &(&unrat(&a) * &unrat(&a)));
    }
    for (l, a, b) in [("tolerance squared", CgarF64::tolerance(), CgarF64::tolerance_squared()), ("query tolerance squared", CgarF64::query_tolerance(), CgarF64::query_tolerance_squared()), ("merge threshold squared", CgarF64::point_merge_threshold(), CgarF64::point_merge_threshold_squared())] {
        ensure(l, same(b.0, a.0 * a.0));
        ensure("positive", pos(&dval(a.0)));
    }
    ensure("double zero", zero(&dval(CgarF64::zero().0)));
    ensure("double one", eq(&dval(CgarF64::one().0), &num(1)));
    ensure("double default", zero(&dval(CgarF64::default().0)));
}
/// a double one unit in the last place or less from x, of the same sign or zero
fn close(d: D, x: &S) -> F {
    if !d.is_finite() { return or(vec![lt(&dval(dnum(f64::MAX)), x), lt(x, &(&num(0) - &dval(dnum(f64::MAX))))]); }
    let v = dval(d);
    let e = &(if split(x, 1) { &num(0) - x } else { x.clone() } * ratio(1, 1 << 52)) + &dval(dnum(5e-324));
    and(vec![le(&(&v - x), &e), le(&(x - &v), &e), imp(pos(x), nonneg(&v)), imp(neg(x), nonpos(&v))])
}
fn q_to_double() {
    let x = var("x");
    let a = rat(&x);
    let d = match choose(7) {
        0 => a.as_f64_fast().unwrap(),
        1 => a.ball_center_f64(),
        2 => RefInto::<CgarF64>::ref_into(&a).0,
        3 => CgarF64::from(a).0,
        4 => CgarF64::from(a.0).0,
        5 => <CgarF64 as FromRef<CgarRational>>::from_ref(&a).0,
        _ => to_f64(&a),
    };
    ensure("nearest doubles", close(d, &x));
}
fn q_interval() {
    let x = var("x");
    match rat(&x).double_interval() {
        Some((lo, hi)) => {
            ensure("lower end", if lo.is_finite() { le(&dval(lo), &x) } else { bool_(lo == dnum(f64::NEG_INFINITY) || lo == dnum(f64::INFINITY)) });
            ensure("upper end", if hi.is_finite() { le(&x, &dval(hi)) } else { bool_(hi == dnum(f64::INFINITY) || hi == dnum(f64::NEG_INFINITY)) });
        }
        None => ensure("no answer", t()),
    }
}

// ---- doubles
/// any finite double, including both zeros
fn any(n: &str) -> D { match choose(3) { 0 => dnum(0.0), 1 => dnum(-0.0), _ => dbl(n) } }
/// the same double up to the sign of zero
fn same(a: D, b: D) -> F {
    if a.is_nan() || b.is_nan() { return bool_(a.is_nan() && b.is_nan()); }
    bool_(a == b)
}
fn d_arith() {
    let (x, y) = (any("x"), any("y"));
    let (a, b) = (CgarF64(x), CgarF64(y));
    match choose(4) {
        0 => { let w = x + y; ensure("sum", same((&a + &b).0, w)); ensure("sum of values", same((a.clone() + b.clone()).0, w)); let mut c = a; c += &b; ensure("sum in place", same(c.0, w)); }
        1 => { let w = x - y; ensure("difference", same((&a - &b).0, w)); ensure("difference of values", same((a.clone() - b.clone()).0, w)); let mut c = a; c -= &b; ensure("difference in place", same(c.0, w)); }
        2 => { let w = x * y; ensure("product", same((&a * &b).0, w)); ensure("product of values", same((a * b).0, w)); }
        _ => { need(nonzero(&dval(y))); let w = x / y; ensure("quotient", same((&a / &b).0, w)); ensure("quotient of values", same((a / b).0, w)); }
    }
}
fn d_neg() {
    let x = any("x");
    let a = CgarF64(x);
    let (v, m) = (dval(x), &num(0) - &dval(x));
    ensure("negation", eq(&dval((-&a).0), &m));
    ensure("negation of a value", eq(&dval((-a.clone()).0), &m));
    let r = dval(a.abs().0);
    ensure("absolute value", and(vec![nonneg(&r), or(vec![eq(&r, &v), eq(&r, &m)])]));
}
fn d_same() {
    let x = any("x");
    let a = CgarF64(x);
    let v = dval(x);
    for (l, d) in [("from a double", CgarF64::from(x).0), ("to a double", D::from(a.clone())), ("fast double", a.as_f64_fast().unwrap()), ("ball centre", a.ball_center_f64()), ("copy", <CgarF64 as FromRef<CgarF64>>::from_ref(&a).0), ("into itself", RefInto::<CgarF64>::ref_into(&a).0), ("primitive", to_f64(&a))] {
        ensure(l, eq(&dval(d), &v));
    }
    match a.double_interval() { Some((lo, hi)) => ensure("interval", and(vec![le(&dval(lo), &v), le(&v, &dval(hi))])), None => ensure("no interval", t()) }
    is("into a lazy number", &RefInto::<LazyExact>::ref_into(&a).exact(), &v);
}
fn tol() -> S { dval(CgarF64::tolerance().0) }
fn class(a: &CgarF64) -> i8 { if a.is_zero() { 0 } else if a.is_positive() { 1 } else { -1 } }
fn d_sign() {
    let x = any("x");
    let (a, v) = (CgarF64(x), dval(x));
    let (z, p, n) = (a.is_zero(), a.is_positive(), a.is_negative());
    ensure("exactly one of zero, positive, negative", bool_(z as u8 + p as u8 + n as u8 == 1));
    ensure("positive or zero", bool_(a.is_positive_or_zero() == !n));
    ensure("negative or zero", bool_(a.is_negative_or_zero() == !p));
    ensure("sign", bool_(a.sign() == if z { 0 } else if p { 1 } else { -1 }));
    ensure("zero is within the tolerance", imp(bool_(z), and(vec![le(&v, &tol()), le(&(&num(0) - &v), &tol())])));
    ensure("everything within the tolerance is zero", imp(and(vec![lt(&v, &tol()), lt(&(&num(0) - &v), &tol())]), bool_(z)));
    ensure("positive", imp(bool_(p), pos(&v)));
    ensure("negative", imp(bool_(n), neg(&v)));
    let m = -&a;
    ensure("negation swaps the signs", bool_(m.sign() == -a.sign()));
}
fn d_order() {
    let (x, y) = (any("x"), any("y"));
    let (a, b) = (CgarF64(x), CgarF64(y));
    let c = a.partial_cmp(&b);
    let d = CgarF64(x - y);
    let want = if !d.0.is_finite() { if d.0 > dnum(0.0) { 1 } else { -1 } } else { d.sign() };
    ensure("order is the sign of the difference", bool_(c.map(|o| o as i8) == Some(want)));
    match choose(4) {
        0 => ensure("antisymmetric", bool_(b.partial_cmp(&a) == c.map(|o| o.reverse()))),
        1 => ensure("operators", bool_((a < b) == (want < 0) && (a <= b) == (want <= 0) && (a > b) == (want > 0) && (a >= b) == (want >= 0))),
        2 => ensure("approximately equal", bool_(a.approx_eq(&b) == (want == 0))),
        _ => {
            let (lo, hi) = (a.clone().min(b.clone()), a.clone().max(b.clone()));
            ensure("minimum is one of both", bool_(lo.0 == x || lo.0 == y));
            ensure("maximum is one of both", bool_(hi.0 == x || hi.0 == y));
            ensure("minimum is not greater", bool_(!(lo > a) && !(lo > b)));
            ensure("maximum is not smaller", bool_(!(hi < a) && !(hi < b)));
        }
    }
}
fn d_zero_order() {
    let x = any("x");
    let a = CgarF64(x);
    ensure("order against zero is the sign", bool_(a.partial_cmp(&CgarF64::zero()).map(|o| o as i8) == Some(a.sign())));
}
fn d_ref_order() {
    let (x, y) = (any("x"), any("y"));
    let (a, b) = (CgarF64(x), CgarF64(y));
    let o = CgarF64::cmp_ref(&a, &b);
    let (v, w) = (dval(x), dval(y));
    ensure("smaller is less", imp(lt(&v, &w), bool_(o == Ordering::Less)));
    ensure("larger is greater", imp(lt(&w, &v), bool_(o == Ordering::Greater)));
    ensure("equal exactly for equal numbers", bool_((a == b) == (o == Ordering::Equal)));
    ensure("reversed", bool_(CgarF64::cmp_ref(&b, &a) == o.reverse()));
    ensure("a number equals itself", bool_(CgarF64::cmp_ref(&a, &a.clone()) == Ordering::Equal));
}
fn d_eq() {
    let (x, y) = (any("x"), any("y"));
    let (a, b) = (CgarF64(x), CgarF64(y));
    let e = a == b;
    ensure("equal numbers have equal values", imp(bool_(e), eq(&dval(x), &dval(y))));
    ensure("different values are not equal", imp(ne(&dval(x), &dval(y)), bool_(!e)));
    ensure("equals itself", bool_(a == a.clone() && !(a != a.clone())));
    ensure("symmetric", bool_((b == a) == e));
    if e { ensure("equal values hash equally", bool_(hash_of(&a) == hash_of(&b))); }
    ensure("same hash every time", bool_(hash_of(&a) == hash_of(&a.clone())));
}
fn step_up() {
    let x = any("x");
    let u = f64_next_up(x);
    ensure("a number", bool_(!u.is_nan()));
    ensure("strictly larger", if u.is_finite() { lt(&dval(x), &dval(u)) } else { bool_(u == dnum(f64::INFINITY)) });
}
fn step_down() {
    let x = any("x");
    let u = f64_next_down(x);
    ensure("a number", bool_(!u.is_nan()));
    ensure("strictly smaller", if u.is_finite() { lt(&dval(u), &dval(x)) } else { bool_(u == dnum(f64::NEG_INFINITY)) });
}

pub fn list() -> Vec<Decl> {
    vec![
        proof("rational sum", &["CgarRational::add", "CgarRational::add_assign"], q_sum),
        proof("rational difference", &["CgarRational::sub", "CgarRational::sub_assign"], q_diff),
        proof("rational product", &["CgarRational::mul"], q_prod),
        proof("rational quotient", &["CgarRational::div"], q_quot),
        proof("rational negation and absolute value", &["CgarRational::neg", "CgarRational::abs"], q_neg),
        proof("rational order", &["CgarRational::partial_cmp", "CgarRational::cmp_ref", "CgarRational::eq", "CgarRational::approx_eq"], q_order),
        proof("rational minimum and maximum", &["Scalar::min", "Scalar::max"], q_minmax),
        proof("rational sign", &["CgarRational::sign", "CgarRational::is_zero", "CgarRational::is_positive", "CgarRational::is_negative", "CgarRational::is_positive_or_zero", "CgarRational::is_negative_or_zero"], q_sign),
        proof("rational hash", &["CgarRational::hash"], q_hash),
        proof("conversion to rational", &["CgarRational::from", "CgarRational::from_ref", "CgarRational::ref_into", "CgarF64::ref_into"], q_from),
        proof("conversion of integers and fractions", &["CgarRational::from", "CgarRational::from_num_den", "CgarF64::from", "CgarF64::from_num_den"], from_ints).within("12 integers and their 132 fractions"),
        proof("constants", &["CgarRational::zero", "CgarRational::one", "CgarRational::default", "CgarRational::tolerance_squared", "CgarF64::zero", "CgarF64::one", "CgarF64::default", "CgarF64::tolerance_squared"], constants),
        proof("conversion of rationals to doubles", &["CgarRational::as_f64_fast", "CgarRational::ball_center_f64", "CgarRational::to_f64", "CgarRational::ref_into", "CgarF64::from", "CgarF64::from_ref"], q_to_double),
        proof("double interval of a rational", &["CgarRational::double_interval", "f64_next_up", "f64_next_down"], q_interval),
        proof("double arithmetic", &["CgarF64::add", "CgarF64::sub", "CgarF64::mul", "CgarF64::div", "CgarF64::add_assign", "CgarF64::sub_assign"], d_arith),
        proof("double negation and absolute value", &["CgarF64::neg", "CgarF64::abs"], d_neg),
        proof("double conversions", &["CgarF64::from", "CgarF64::as_f64_fast", "CgarF64::ball_center_f64", "CgarF64::double_interval", "CgarF64::to_f64", "CgarF64::ref_into"], d_same),
        proof("double sign tests", &["CgarF64::sign", "CgarF64::is_zero", "CgarF64::is_positive", "CgarF64::is_negative", "CgarF64::is_positive_or_zero", "CgarF64::is_negative_or_zero"], d_sign),
        proof("double order", &["CgarF64::partial_cmp", "CgarF64::approx_eq", "Scalar::min", "Scalar::max"], d_order),
        proof("double order against zero", &["CgarF64::partial_cmp", "CgarF64::sign"], d_zero_order),
        proof("double reference order", &["CgarF64::cmp_ref"], d_ref_order),
        proof("double equality and hash", &["CgarF64::eq", "CgarF64::hash"], d_eq),
        proof("next double up", &["f64_next_up"], step_up),
        proof("next double down", &["f64_next_down"], step_down),
    ]
}
