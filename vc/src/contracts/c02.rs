// C02: lazy exact numbers and the ball arithmetic behind them.
use numeric::{ball::Ball, cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};
use numeric::scalar::Scalar as _;
use operations::{Abs as _, One as _, Zero as _};
use std::cmp::Ordering;

/// half of the smallest double
fn tiny() -> S { &dval(dnum(5e-324)) * &ratio(1, 2) }
/// the ball promises to contain x
fn encloses(b: &Ball, x: &S) -> F {
    if b.r.is_nan() || b.r == dnum(f64::INFINITY) { return t(); }
    if !b.r.is_finite() || !b.m.is_finite() { return ff(); }
    let d = &dval(b.m) - x;
    and(vec![nonneg(&dval(b.r)), le(&d, &dval(b.r)), le(&(&num(0) - &d), &dval(b.r))])
}
/// any ball and any number in it
fn ball(n: &str) -> (Ball, S) {
    match choose(4) {
        0 => {
            let m = dbl(&format!("{}m", n));
            let r = dbl(&format!("{}r", n));
            need(nonneg(&dval(r)));
            let d = within(&format!("{}d", n), r);
            (Ball { m, r }, &dval(m) + &d)
        }
        1 => { let m = dbl(&format!("{}m", n)); (Ball { m, r: dnum(0.0) }, dval(m)) }
        2 => (Ball { m: dbl(&format!("{}m", n)), r: dnum(f64::INFINITY) }, var(n)),
        _ => (Ball { m: [dnum(f64::NAN), dnum(f64::INFINITY), dnum(f64::NEG_INFINITY), dnum(1.0)][choose(4)], r: dnum(f64::NAN) }, var(n)),
    }
}
fn ball_leaf() { let x = dbl("x"); ensure("the ball of a double contains it", encloses(&Ball::from_f64(x), &dval(x))); }
fn ball_neg() { let (a, x) = ball("x"); ensure("-x", encloses(&a.neg(), &(&num(0) - &x))); }
fn ball_add() { let ((a, x), (b, y)) = (ball("x"), ball("y")); ensure("x+y", encloses(&a.add(b), &(&x + &y))); }
fn ball_sub() { let ((a, x), (b, y)) = (ball("x"), ball("y")); ensure("x-y", encloses(&a.sub(b), &(&x - &y))); }
/// any ball with finite radius and any number in it
fn finite(n: &str) -> (Ball, S) {
    let m = dbl(&format!("{}m", n));
    let r = dbl(&format!("{}r", n));
    need(nonneg(&dval(r)));
    let d = within(&format!("{}d", n), r);
    (Ball { m, r }, &dval(m) + &d)
}
/// any ball of infinite or undefined radius and any number
fn infinite(n: &str) -> (Ball, S) {
    match choose(2) {
        0 => (Ball { m: dbl(&format!("{}m", n)), r: dnum(f64::INFINITY) }, var(n)),
        _ => (Ball { m: [dnum(f64::NAN), dnum(f64::INFINITY), dnum(f64::NEG_INFINITY), dnum(1.0)][choose(4)], r: dnum(f64::NAN) }, var(n)),
    }
}
/// two balls, at least one of which is infinite
fn mixed() -> ((Ball, S), (Ball, S)) {
    match choose(3) { 0 => (finite("x"), infinite("y")), 1 => (infinite("x"), finite("y")), _ => (infinite("x"), infinite("y")) }
}
/// |x*y - m*n| is bounded by the products of the radii and centres
fn product_bounds(a: &Ball, x: &S, b: &Ball, y: &S) {
    let (m, r, n, s) = (dval(a.m), dval(a.r), dval(b.m), dval(b.r));
    let (d, e) = (x - &m, y - &n);
    let (m, n) = (if split(&m, 1) { &num(0) - &m } else { m }, if split(&n, 1) { &num(0) - &n } else { n });
    for (p, q) in [(&r - &d, &n), (&r + &d, &n), (&s - &e, &m), (&s + &e, &m), (&r - &d, &(&s + &e)), (&r + &d, &(&s - &e)), (&r - &d, &(&s - &e)), (&r + &d, &(&s + &e))] {
        lemma("product bound", nonneg(&(&p * q)));
    }
}
fn ball_mul() {
    let ((a, x), (b, y)) = (finite("x"), finite("y"));
    let p = a.mul(b);
    product_bounds(&a, &x, &b, &y);
    ensure("x*y", encloses(&p, &(&x * &y)));
}
fn ball_mul_inf() { let ((a, x), (b, y)) = mixed(); ensure("x*y", encloses(&a.mul(b), &(&x * &y))); }
/// |1/y - 1/m| <= r / (m * (m - r)), and what rounding does to the right-hand side
fn recip_bounds(b: &Ball, y: &S) {
    let (av, r) = (b.m.abs(), dval(b.r));
    let a = dval(av);
    let s = av - b.r;
    if !s.is_finite() || !split(&dval(s), 4) || !split(&(&a - &r), 4) { return; }
    let m = dval(b.m);
    let d = if split(&m, 1) { &m - y } else { y - &m };
    lemma("positive", pos(&(&a + &d)));
    let c = &(&num(1) + &ratio(1, 1 << 53)) * &(&a - &r);
    let (w, v, h, k) = (quot(&num(1), &(&a + &d)), quot(&num(1), &a), quot(&num(1), &(&a - &r)), quot(&r, &dval(s)));
    let e = |x: &S, y: &S| &(x * y) - &num(1);
    let (ew, ev, eh) = (e(&w, &(&a + &d)), e(&v, &a), e(&h, &(&a - &r)));
    for p in [&v * &ew, &w * &ev, &h * &ew, &w * &eh, &k * &eh, &h * &(&(&k * &dval(s)) - &r)] { lemma("inverse", zero(&p)); }
    let hw = &h * &w;
    lemma("h - w", nonneg(&(&hw * &(&r + &d))));
    lemma("h - w", nonneg(&(&h - &w)));
    let vw = &v * &w;
    lemma("deviation", nonneg(&(&vw * &(&r + &d))));
    lemma("deviation", nonneg(&(&vw * &(&r - &d))));
    lemma("deviation", nonneg(&(&(&v * &r) * &(&h - &w))));
    lemma("quotient", nonneg(&(&(&h * &k) * &(&c - &dval(s)))));
    let up = &(&(&num(1) + &ratio(1, 1 << 53)) * &k) - &(&r * &h);
    lemma("quotient", nonneg(&up));
    lemma("quotient", nonneg(&(&v * &up)));
    let q = b.r / s;
    if !q.is_finite() || split(&dval(q), 3) { return; }
    let low = &dval(q) - &(&(&(&num(1) - &ratio(1, 1 << 53)) * &k) - &tiny());
    lemma("rounded quotient", nonneg(&low));
    lemma("rounded quotient", nonneg(&(&v * &low)));
    let k2 = quot(&dval(q), &a);
    lemma("second quotient", zero(&(&v * &(&(&k2 * &a) - &dval(q)))));
    lemma("second quotient", zero(&(&k2 * &ev)));
    lemma("second quotient", eq(&k2, &(&v * &dval(q))));
}
fn ball_recip() {
    let (b, y) = finite("y");
    need(nonzero(&y));
    let i = recip(b);
    if SYMBOLIC && i.r.is_finite() { recip_bounds(&b, &y); }
    ensure("1/y", encloses(&i, &quot(&num(1), &y)));
}
fn ball_div() {
    let ((a, x), (b, y)) = (finite("x"), finite("y"));
    need(nonzero(&y));
    let w = quot(&num(1), &y);
    let q = a.div(b);
    let i = recip(b);
    if SYMBOLIC && i.r.is_finite() {
        // contract of the reciprocal
        need(encloses(&i, &w));
        if !i.m.is_finite() { return; }
        product_bounds(&a, &x, &i, &w);
    }
    ensure("x/y", encloses(&q, &(&x * &w)));
}
fn ball_div_inf() { let ((a, x), (b, y)) = mixed(); need(nonzero(&y)); let w = quot(&num(1), &y); ensure("x/y", encloses(&a.div(b), &(&x * &w))); }
fn ball_sign() {
    let (a, x) = ball("x");
    match a.sign_if_certain() {
        Some(1) => ensure("certainly positive", pos(&x)),
        Some(0) => ensure("certainly zero", zero(&x)),
        Some(_) => ensure("certainly negative", neg(&x)),
        None => ensure("no answer", t()),
    }
}

/// any lazy number and its value; kinds: 0 double, 1 rational, 2 expression with bounded ball, 3 expression with unbounded ball, 4 such an expression of greatest depth, 5 as 2 but of depth one
fn node_of(n: &str, kind: usize) -> (LazyExact, S) {
    match kind {
        0 => { let d = dbl(n); (LazyExact::from(d), dval(d)) }
        1 => { let x = var(n); (LazyExact::from(rat(&x)), x) }
        2 => { let (b, x) = finite(n); (any_node(n, &x, b, [1, 1024][choose(2)]), x) }
        5 => { let (b, x) = finite(n); (any_node(n, &x, b, 1), x) }
        3 => { let (b, x) = infinite(n); (any_node(n, &x, b, 1), x) }
        _ => { let x = var(n); (any_node(n, &x, Ball { m: dbl(&format!("{}m", n)), r: dnum(f64::INFINITY) }, 1024), x) }
    }
}
fn node(n: &str) -> (LazyExact, S) { node_of(n, choose(5)) }
/// two numbers for a comparison (the second one never of greatest depth)
fn pair_c<const G: usize>() -> ((LazyExact, S), (LazyExact, S)) {
    let (k, l) = match G {
        0 => (choose(2), choose(2)),
        1 => (choose(2), 5),
        2 => (2, choose(2)),
        3 => (2, 5),
        4 => (3 + choose(2), [0, 1, 3, 5][choose(4)]),
        5 => (choose(3), 3),
        _ => (5, 5),
    };
    (node_of("x", k), node_of("y", l))
}
/// two numbers; the groups together cover all combinations of kinds
fn pair<const G: usize>() -> ((LazyExact, S), (LazyExact, S)) {
    let (k, l) = match G {
        0 => (choose(2), choose(2)),
        1 => (choose(2), 2),
        2 => (2, choose(2)),
        3 => (2, 2),
        4 => (3 + choose(2), choose(5)),
        _ => (choose(3), 3 + choose(2)),
    };
    (node_of("x", k), node_of("y", l))
}
/// everything a number answers about itself is true of x
fn is(r: &LazyExact, x: &S, k: usize) {
    match k {
        0 => {
            let s = r.sign();
            ensure("sign", match s { 1 => pos(x), 0 => zero(x), -1 => neg(x), _ => ff() });
        }
        1 => ensure("exact value", eq(&unrat(&r.exact()), x)),
        2 => {
            if let Some((lo, hi)) = r.double_interval() {
                ensure("interval is ordered", bool_(!lo.is_nan() && !hi.is_nan()));
                if lo.is_nan() || hi.is_nan() { return; }
                ensure("interval from below", if lo == dnum(f64::NEG_INFINITY) { t() } else if lo.is_finite() { le(&dval(lo), x) } else { ff() });
                ensure("interval from above", if hi == dnum(f64::INFINITY) { t() } else if hi.is_finite() { le(x, &dval(hi)) } else { ff() });
            } else { ensure("no interval", t()); }
        }
        3 => {
            ensure("is_zero", is_true_iff(operations::Zero::is_zero(r), zero(x)));
            ensure("is_positive", is_true_iff(r.is_positive(), pos(x)));
            ensure("is_negative", is_true_iff(r.is_negative(), neg(x)));
            ensure("is_positive_or_zero", is_true_iff(r.is_positive_or_zero(), nonneg(x)));
            ensure("is_negative_or_zero", is_true_iff(r.is_negative_or_zero(), nonpos(x)));
        }
        _ => ensure("ball", encloses(r.ball_ref(), x)),
    }
}
fn answers_0() { let (a, x) = node("x"); is(&a, &x, 0) }
fn answers_1() { let (a, x) = node("x"); is(&a, &x, 1); is(&a, &x, 0) }
fn answers_2() { let (a, x) = node("x"); is(&a, &x, 2) }
fn answers_3() { let (a, x) = node("x"); is(&a, &x, 3) }
fn answers_4() { let (a, x) = node("x"); is(&a, &x, 4) }

/// the result of an operation on two numbers, and its value
fn binary<const G: usize>(op: usize) -> (LazyExact, S) {
    let ((a, x), (b, y)) = pair::<G>();
    let own = choose(2) == 1;
    match op {
        0 => (if own { a + b } else { &a + &b }, &x + &y),
        1 => (if own { a - b } else { &a - &b }, &x - &y),
        2 => (if own { a * b } else { &a * &b }, &x * &y),
        _ => { need(nonzero(&y)); let q = quot(&x, &y); (if own { a / b } else { &a / &b }, q) }
    }
}
fn value<const G: usize, const O: usize>() { let (r, x) = binary::<G>(O); is(&r, &x, 1) }
fn signs<const G: usize, const O: usize>() { modular(); let (r, x) = binary::<G>(O); is(&r, &x, 0) }
fn interval<const G: usize, const O: usize>() { modular(); let (r, x) = binary::<G>(O); is(&r, &x, 2) }
/// an operation on the result of another one
fn nested<const O: usize>() {
    modular();
    let (x, y, z) = (var("x"), var("y"), var("z"));
    let (a, b, d) = (plain_node("a", &x), plain_node("b", &y), plain_node("d", &z));
    if O >= 2 { for v in [&x, &y] { let _ = split(v, 2) || split(v, 4); } }
    let (c, v) = match O { 0 => (&a + &b, &x + &y), 1 => (&a - &b, &x - &y), 2 => (&a * &b, &x * &y), 3 => { need(nonzero(&y)); (&a / &b, quot(&x, &y)) } _ => (-&a, &num(0) - &x) };
    if choose(2) == 1 { let _ = c.exact(); }
    let (r, w) = match choose(8) {
        0 => (&c + &d, &v + &z),
        1 => (&d + &c, &z + &v),
        2 => (&c - &d, &v - &z),
        3 => (&d - &c, &z - &v),
        4 => (&c * &d, &v * &z),
        5 => (&d * &c, &z * &v),
        6 => (-&c, &num(0) - &v),
        _ => { need(nonzero(&z)); (&c / &d, quot(&v, &z)) }
    };
    is(&r, &w, 1);
}
fn neg_v() { let (a, x) = node("x"); let r = if choose(2) == 0 { -&a } else { -a }; is(&r, &(&num(0) - &x), 1) }
fn neg_b() { let (a, x) = node("x"); is(&-&a, &(&num(0) - &x), 4) }
/// the ball of a result, given the contracts of the ball operations
fn balls<const G: usize, const O: usize>() {
    modular();
    let ((a, x), (b, y)) = pair::<G>();
    if O >= 2 { for v in [&x, &y] { let _ = split(v, 2) || split(v, 4); } }
    let (r, v) = match O { 0 => (&a + &b, &x + &y), 1 => (&a - &b, &x - &y), 2 => (&a * &b, &x * &y), _ => { need(nonzero(&y)); (&a / &b, quot(&x, &y)) } };
    is(&r, &v, 4)
}
fn assign<const G: usize>() {
    let ((a, x), (b, y)) = pair::<G>();
    if choose(2) == 0 { let mut p = a; p += &b; is(&p, &(&x + &y), 1); } else { let mut m = a; m -= &b; is(&m, &(&x - &y), 1); }
}
fn order(o: Option<Ordering>, x: &S, y: &S) -> F {
    match o { Some(Ordering::Less) => lt(x, y), Some(Ordering::Equal) => eq(x, y), Some(Ordering::Greater) => lt(y, x), None => ff() }
}
fn cmp_p<const G: usize>() { modular(); let ((a, x), (b, y)) = pair_c::<G>(); ensure("partial_cmp", order(a.partial_cmp(&b), &x, &y)); }
fn cmp_r<const G: usize>() { modular(); let ((a, x), (b, y)) = pair_c::<G>(); ensure("cmp_ref", order(Some(LazyExact::cmp_ref(&a, &b)), &x, &y)); ensure("a number equals itself", bool_(LazyExact::cmp_ref(&a, &a.clone()) == Ordering::Equal)); }
fn cmp_f<const G: usize>() { modular(); let ((a, x), (b, y)) = pair_c::<G>(); match a.cmp_fast(&b) { None => ensure("no answer", t()), o => ensure("cmp_fast", order(o, &x, &y)) } }
fn cmp_e<const G: usize>() { modular(); let ((a, x), (b, y)) = pair_c::<G>(); ensure("equality", is_true_iff(a == b, eq(&x, &y))); let c = LazyExact::cmp_exact(&a, &b); ensure("cmp_exact", match c { -1 => lt(&x, &y), 0 => eq(&x, &y), 1 => lt(&y, &x), _ => ff() }); }
fn minmax<const G: usize>() {
    modular(); let ((a, x), (b, y)) = pair_c::<G>();
    let (lo, hi) = (unrat(&a.clone().min(b.clone()).exact()), unrat(&a.max(b).exact()));
    ensure("min", and(vec![le(&lo, &x), le(&lo, &y), or(vec![eq(&lo, &x), eq(&lo, &y)])]));
    ensure("max", and(vec![le(&x, &hi), le(&y, &hi), or(vec![eq(&hi, &x), eq(&hi, &y)])]));
}
fn abs_() { let (a, x) = node("x"); let r = unrat(&a.abs().exact()); ensure("absolute value", and(vec![nonneg(&r), or(vec![eq(&r, &x), eq(&r, &(&num(0) - &x))])])); }
fn exact_double() {
    let (a, x) = node("x");
    match a.as_f64_if_exact() { Some(d) => { ensure("a finite double", bool_(d.is_finite())); if d.is_finite() { ensure("exactly the value", eq(&dval(d), &x)); } } None => ensure("no answer", t()) }
}
fn constants() {
    is(&LazyExact::zero(), &num(0), 1);
    is(&LazyExact::one(), &num(1), 1);
    is(&LazyExact::default(), &num(0), 1);
    is(&LazyExact::from_num_den(3, 7), &ratio(3, 7), 1);
    is(&LazyExact::from(5), &num(5), 1);
    is(&LazyExact::tolerance(), &num(0), 1);
    is(&LazyExact::point_merge_threshold(), &ratio(1, 1000000), 1);
}
fn convert() {
    let d = dbl("d");
    let x = var("x");
    is(&LazyExact::from(CgarF64(d)), &dval(d), 1);
    is(&LazyExact::from_f64(d), &dval(d), 1);
    is(&LazyExact::from(rat(&x)), &x, 1);
    is(&LazyExact::from(rat(&x).0), &x, 1);
    is(&<LazyExact as numeric::scalar::FromRef<CgarF64>>::from_ref(&CgarF64(d)), &dval(d), 1);
    is(&<LazyExact as numeric::scalar::FromRef<CgarRational>>::from_ref(&rat(&x)), &x, 1);
    ensure("back to rational", eq(&unrat(&CgarRational::from(LazyExact::from(rat(&x)))), &x));
}

macro_rules! groups {
    ($l:ident, $d:ident, $n:literal, $f:expr, $c:ident $(, $o:literal)?) => {
        $l.push($d(concat!($n, ": leaves"), $f, $c::<0 $(, $o)?>));
        $l.push($d(concat!($n, ": leaf and expression"), $f, $c::<1 $(, $o)?>));
        $l.push($d(concat!($n, ": expression and leaf"), $f, $c::<2 $(, $o)?>));
        $l.push($d(concat!($n, ": expressions"), $f, $c::<3 $(, $o)?>));
        $l.push($d(concat!($n, ": unbounded first"), $f, $c::<4 $(, $o)?>));
        $l.push($d(concat!($n, ": unbounded second"), $f, $c::<5 $(, $o)?>));
    };
}
pub fn list() -> Vec<Decl> {
    let mut l = vec![
        proof("ball of a double", &["Ball::from_f64"], ball_leaf),
        proof("ball negation", &["Ball::neg"], ball_neg),
        proof("ball addition", &["Ball::add", "two_sum", "Ball::widen_ulp", "Ball::outward"], ball_add),
        proof("ball subtraction", &["Ball::sub"], ball_sub),
        proof("ball multiplication", &["Ball::mul", "two_prod"], ball_mul),
        proof("ball multiplication, unbounded", &["Ball::mul", "two_prod"], ball_mul_inf),
        proof("ball reciprocal", &["Ball::recip"], ball_recip),
        proof("ball division", &["Ball::div", "Ball::mul"], ball_div),
        proof("ball division, unbounded", &["Ball::div", "Ball::recip"], ball_div_inf),
        proof("ball sign", &["Ball::sign_if_certain"], ball_sign),
        proof("sign of a number", &["LazyExact::sign", "LazyExact::exact", "LazyExact::ball_ref", "LazyExact::eval_ball_kind", "Ball::from_rounded"], answers_0),
        proof("value of a number", &["LazyExact::exact"], answers_1),
        proof("double interval of a number", &["LazyExact::double_interval", "f64_next_up", "f64_next_down"], answers_2),
        proof("sign tests of a number", &["LazyExact::is_zero", "LazyExact::is_positive", "LazyExact::is_negative", "LazyExact::is_positive_or_zero", "LazyExact::is_negative_or_zero"], answers_3),
        proof("ball of a number", &["LazyExact::ball_ref", "LazyExact::eval_ball_kind", "Ball::from_rounded", "Ball::unknown"], answers_4),
        proof("negation: value", &["LazyExact::neg", "LazyExact::new"], neg_v),
        proof("negation: ball", &["LazyExact::neg", "LazyExact::eval_ball_kind"], neg_b),
        proof("absolute value", &["LazyExact::abs"], abs_),
        proof("exact doubles", &["LazyExact::as_f64_if_exact"], exact_double),
        proof("constants", &["LazyExact::zero", "LazyExact::one", "LazyExact::from_num_den", "LazyExact::from_i32"], constants),
        proof("conversions", &["LazyExact::from", "LazyExact::from_ref", "LazyExact::from_cgar_f64", "LazyExact::from_cgar_rational", "LazyExact::from_rug_rational"], convert),
    ];
    groups!(l, proof, "sum, value", &["LazyExact::add", "LazyExact::new", "LazyExact::simplify_identities", "LazyExact::fold_if_both_exact", "LazyExact::from_leafs", "LazyExact::exact"], value, 0);
    groups!(l, proof, "difference, value", &["LazyExact::sub", "LazyExact::new"], value, 1);
    groups!(l, proof, "product, value", &["LazyExact::mul", "LazyExact::new"], value, 2);
    groups!(l, proof, "quotient, value", &["LazyExact::div", "LazyExact::new"], value, 3);
    groups!(l, proof, "sum, ball", &["LazyExact::add", "LazyExact::eval_ball_kind"], balls, 0);
    groups!(l, proof, "difference, ball", &["LazyExact::sub", "LazyExact::eval_ball_kind"], balls, 1);
    groups!(l, proof, "product, ball", &["LazyExact::mul", "LazyExact::eval_ball_kind"], balls, 2);
    groups!(l, proof, "quotient, ball", &["LazyExact::div", "LazyExact::eval_ball_kind"], balls, 3);
    groups!(l, proof, "in-place sum and difference", &["LazyExact::add_assign", "LazyExact::sub_assign"], assign);
    groups!(l, proof, "order of two numbers", &["LazyExact::partial_cmp"], cmp_p);
    let f: &'static [&'static str] = &["LazyExact::cmp_ref", "LazyExact::as_f64_if_exact", "LazyExact::cmp_exact"];
    l.insert(0, proof("reference order of two numbers: leaves", f, cmp_r::<0>));
    l.insert(0, proof("reference order of two numbers: leaf and expression", f, cmp_r::<1>));
    l.insert(0, proof("reference order of two numbers: expression and leaf", f, cmp_r::<2>));
    l.insert(0, proof("reference order of two numbers: unbounded first", f, cmp_r::<4>));
    l.insert(0, proof("reference order of two numbers: unbounded second", f, cmp_r::<5>));
    l.insert(0, proof("reference order of two numbers: expressions", f, cmp_r::<6>));
    groups!(l, proof, "fast order of two numbers", &["LazyExact::cmp_fast"], cmp_f);
    groups!(l, proof, "equality of two numbers", &["LazyExact::eq", "LazyExact::cmp_exact"], cmp_e);
    groups!(l, proof, "min and max", &["LazyExact::min", "LazyExact::max"], minmax);
    for (n, f) in [("operation on a sum", nested::<0> as fn()), ("operation on a difference", nested::<1>), ("operation on a product", nested::<2>), ("operation on a quotient", nested::<3>), ("operation on a negation", nested::<4>)] {
        l.push(proof(n, &["LazyExact::simplify_identities", "LazyExact::fold_if_both_exact", "LazyExact::new", "LazyExact::exact"], f));
    }
    for (n, f) in [("sum, sign", signs::<3, 0> as fn()), ("difference, sign", signs::<3, 1>), ("product, sign", signs::<3, 2>), ("quotient, sign", signs::<3, 3>), ("sum, interval", interval::<3, 0>), ("product, interval", interval::<3, 2>)] {
        l.push(bounded(n, &["LazyExact::sign", "LazyExact::double_interval"], f));
    }
    l
}
