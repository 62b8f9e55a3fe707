use cgar::geometry::edge_edge_intersect::edge_edge_intersection_2;
use cgar::geometry::intersection::*;
use cgar::mesh::topology::ray_segment_intersection_2d;

enum R<const N: usize> {
    None,
    Point(Point<S, N>),
    Seg(Point<S, N>, Point<S, N>),
}
fn at<const N: usize>(a: &Point<S, N>, u: &[S; N], n: &S, d: &S) -> Point<S, N> {
    Point { coords: std::array::from_fn(|i| &a.coords[i] + &(&(&u[i] * n) / d)) }
}
/// Specification for collinear segments: overlap of the parameter intervals [0,uu] and [tc,td] along u.
fn check_collinear<const N: usize>(r: R<N>, a: &Point<S, N>, u: &[S; N], tc: S, td: S) {
    let uu = dot_(u, u);
    let (lo2, hi2) = if split(&(&td - &tc), 1) { (td, tc) } else { (tc, td) };
    let lo = if split(&lo2, 4) { lo2 } else { num(0) };
    let hi = if split(&(&hi2 - &uu), 1) { hi2 } else { uu.clone() };
    let gap = &lo - &hi;
    match r {
        R::None => ensure("collinear: nothing only when disjoint", pos(&gap)),
        R::Point(p) => {
            ensure("collinear: a point only when touching at one point", zero(&gap));
            ensure("collinear: the touching point", eqp(&p, &at(a, u, &lo, &uu)));
        }
        R::Seg(x, y) => {
            ensure("collinear: a segment only for a proper overlap", neg(&gap));
            let (p, q) = (at(a, u, &lo, &uu), at(a, u, &hi, &uu));
            ensure(
                "collinear: the common segment",
                or(vec![and(vec![eqp(&x, &p), eqp(&y, &q)]), and(vec![eqp(&x, &q), eqp(&y, &p)])]),
            );
        }
    }
}
/// Specification for lines meeting in one point a + s/d u = c + t/d v.
fn check_crossing<const N: usize>(r: R<N>, a: &Point<S, N>, u: &[S; N], s: S, t: S, d: S) {
    // normalise the sign of d
    let (s, t, d) = if split(&d, 1) { (-s, -t, -d) } else { (s, t, d) };
    let hit = and(vec![nonneg(&s), nonneg(&(&d - &s)), nonneg(&t), nonneg(&(&d - &t))]);
    match r {
        R::None => ensure("crossing: nothing only when they miss", not(hit)),
        R::Point(p) => {
            ensure("crossing: a point only when they meet", hit);
            ensure("crossing: the meeting point", eqp(&p, &at(a, u, &s, &d)));
        }
        R::Seg(..) => ensure("crossing: never a segment", ff()),
    }
}
fn seg2() {
    let a = pt::<2>("a");
    let (b, c) = (off(&a, "u"), off(&a, "w"));
    let d = off(&c, "v");
    require!(not(eqp(&a, &b)));
    require!(not(eqp(&c, &d)));
    let r = match segment_segment_intersection_2(&Segment::new(&a, &b), &Segment::new(&c, &d)) {
        SegmentIntersection2::None => R::None,
        SegmentIntersection2::Point(p) => R::Point(p),
        SegmentIntersection2::Overlapping(s) => R::Seg(s.a, s.b),
    };
    let (u, v, w) = (diff(&b, &a), diff(&d, &c), diff(&c, &a));
    let dd = det2(&u, &v);
    if split(&dd, 5) {
        mark("crossing");
        check_crossing(r, &a, &u, det2(&w, &v), det2(&w, &u), dd);
    } else if split(&det2(&u, &w), 5) {
        mark("parallel");
        ensure("parallel segments do not meet", bool_(matches!(r, R::None)));
    } else {
        mark("collinear");
        check_collinear(r, &a, &u, dot_(&w, &u), dot_(&diff(&d, &a), &u));
    }
}
fn to3(r: SegmentIntersection3<S>) -> R<3> {
    match r {
        SegmentIntersection3::None => R::None,
        SegmentIntersection3::Point(p) => R::Point(p),
        SegmentIntersection3::Overlapping(s) => R::Seg(s.a, s.b),
    }
}
fn seg3_skew() {
    let a = pt::<3>("a");
    let (b, c) = (off(&a, "u"), off(&a, "w"));
    let d = off(&c, "v");
    let n = cross_(&diff(&b, &a), &diff(&d, &c));
    require!(nonzero(&dot_(&diff(&c, &a), &n)));
    n.iter().for_each(hint);
    let r = to3(segment_segment_intersection_3(&Segment::new(&a, &b), &Segment::new(&c, &d)));
    ensure("skew segments do not meet", bool_(matches!(r, R::None)));
}
/// lines that meet: the second segment is built through a point of the first line
fn seg3_meeting() {
    let a = pt::<3>("a");
    let b = off(&a, "u");
    let v = pt::<3>("v");
    let (s, t) = (var("s"), var("t"));
    // a + s u = c + t v
    let c: Point<S, 3> = Point { coords: std::array::from_fn(|i| &(&a.coords[i] + &(&s * &(&b.coords[i] - &a.coords[i]))) - &(&t * &v.coords[i])) };
    let d = plus(&c, &v.coords);
    require!(not(parallel(&diff(&b, &a), &diff(&d, &c))));
    let r = to3(segment_segment_intersection_3(&Segment::new(&a, &b), &Segment::new(&c, &d)));
    check_crossing(r, &a, &diff(&b, &a), s, t, num(1));
}
fn seg3_parallel() {
    let a = pt::<3>("a");
    let (b, c) = (off(&a, "u"), off(&a, "w"));
    let k = var("k");
    require!(not(eqp(&a, &b)));
    require!(nonzero(&k));
    let u = diff(&b, &a);
    let w = diff(&c, &a);
    require!(not(parallel(&u, &w)));
    let d = Point { coords: std::array::from_fn(|i| &c.coords[i] + &(&k * &u[i])) };
    let r = to3(segment_segment_intersection_3(&Segment::new(&a, &b), &Segment::new(&c, &d)));
    ensure("parallel segments do not meet", bool_(matches!(r, R::None)));
}
fn seg3_collinear() {
    let a = pt::<3>("a");
    let b = off(&a, "u");
    let (s, t) = (var("s"), var("t"));
    require!(not(eqp(&a, &b)));
    require!(ne(&s, &t));
    let u = diff(&b, &a);
    let (c, d) = (lerp(&a, &b, &s), lerp(&a, &b, &t));
    let r = to3(segment_segment_intersection_3(&Segment::new(&a, &b), &Segment::new(&c, &d)));
    let (x, y) = if split(&(&t - &s), 1) { (t, s) } else { (s, t) };
    let lo = if split(&x, 4) { x } else { num(0) };
    let hi = if split(&(&y - &num(1)), 1) { y } else { num(1) };
    let gap = &lo - &hi;
    match r {
        R::None => ensure("collinear: nothing only when disjoint", pos(&gap)),
        R::Point(p) => {
            ensure("collinear: a point only when touching at one point", zero(&gap));
            ensure("collinear: the touching point", eqp(&p, &lerp(&a, &b, &lo)));
        }
        R::Seg(x, y) => {
            ensure("collinear: a segment only for a proper overlap", neg(&gap));
            let (p, q) = (lerp(&a, &b, &lo), lerp(&a, &b, &hi));
            ensure(
                "collinear: the common segment",
                or(vec![and(vec![eqp(&x, &p), eqp(&y, &q)]), and(vec![eqp(&x, &q), eqp(&y, &p)])]),
            );
        }
    }
}
fn edge_edge() {
    let a = pt::<2>("a");
    let (b, c) = (off(&a, "u"), off(&a, "w"));
    let d = off(&c, "v");
    let (u, v, w) = (diff(&b, &a), diff(&d, &c), diff(&c, &a));
    let dd = det2(&u, &v);
    let r = match edge_edge_intersection_2(&a, &b, &c, &d) {
        None => R::None,
        Some(p) => R::Point(p),
    };
    if split(&dd, 2) {
        ensure("parallel edges give no single point", bool_(matches!(r, R::None)));
    } else {
        check_crossing(r, &a, &u, det2(&w, &v), det2(&w, &u), dd);
    }
}
fn ray_segment() {
    let o = pt::<2>("o");
    let a = off(&o, "q");
    let b = off(&a, "s");
    let d = [var("d0"), var("d1")];
    require!(not(and(vec![zero(&d[0]), zero(&d[1])])));
    let r = ray_segment_intersection_2d(&o, &Vector(Point { coords: d.clone() }), &a, &b);
    let s = diff(&b, &a);
    let q = diff(&a, &o);
    let dd = det2(&d, &s);
    let check_point = |t: &S, u: &S| {
        let p: Point<S, 2> = Point { coords: std::array::from_fn(|i| &o.coords[i] + &(t * &d[i])) };
        ensure("both parameters name the same point", eqp(&p, &lerp(&a, &b, u)));
        ensure("parameters in range", and(vec![nonneg(t), nonneg(u), nonneg(&(&num(1) - u))]));
    };
    if split(&dd, 5) {
        let (t, u) = (det2(&q, &s), det2(&q, &d));
        let (t, u, e) = if split(&dd, 1) { (-t, -u, -dd.clone()) } else { (t, u, dd.clone()) };
        let hit = and(vec![nonneg(&t), nonneg(&u), nonneg(&(&e - &u))]);
        match &r {
            None => ensure("no hit only when the ray misses", not(hit)),
            Some((x, y)) => {
                ensure("hit only when the ray meets the segment", hit);
                ensure("ray parameter", eq(&(x * &e), &t));
                ensure("segment parameter", eq(&(y * &e), &u));
                check_point(x, y);
            }
        }
    } else if split(&det2(&q, &d), 5) {
        ensure("parallel ray misses", bool_(r.is_none()));
    } else {
        let t0 = dot_(&q, &d);
        let t1 = dot_(&diff(&b, &o), &d);
        let both_behind = and(vec![neg(&t0), neg(&t1)]);
        match &r {
            None => ensure("collinear: no hit only when entirely behind", both_behind),
            Some((x, y)) => {
                ensure("collinear: hit only when not behind", not(both_behind));
                check_point(x, y);
                // first common point
                let g = x * &dot_(&d, &d);
                ensure("collinear: first point of the segment along the ray", or(vec![zero(x), and(vec![le(&g, &t0), le(&g, &t1)])]));
                ensure("collinear: starts inside or at an end", or(vec![eq(&g, &t0), eq(&g, &t1), and(vec![zero(x), or(vec![nonpos(&t0), nonpos(&t1)])])]));
            }
        }
    }
}
fn ray_zero_direction() {
    let (o, a, b) = (pt::<2>("o"), pt::<2>("a"), pt::<2>("b"));
    let r = ray_segment_intersection_2d(&o, &Vector(Point { coords: [num(0), num(0)] }), &a, &b);
    ensure("a null direction hits nothing", bool_(r.is_none()));
}
fn seg_ops<const N: usize>()
where
    Point<S, N>: PointOps<S, N, Vector = Vector<S, N>>,
    Vector<S, N>: VectorOps<S, N>,
{
    let a = pt::<N>("a");
    let (b, p) = (off(&a, "u"), off(&a, "w"));
    let s = Segment::new(&a, &b);
    ensure("ends", and(vec![eqp(s.a(), &a), eqp(s.b(), &b), eqp(&s[0], &a), eqp(&s[1], &b)]));
    ensure("midpoint", eqp(&s.midpoint(), &lerp(&a, &b, &ratio(1, 2))));
    let u = diff(&b, &a);
    ensure("squared length", eq(&s.length2(), &dot_(&u, &u)));
    let dir = s.direction();
    for i in 0..N {
        ensure("direction", eq(&dir.0.coords[i], &u[i]));
    }
    let inv = s.inverse();
    ensure("inverse swaps the ends", and(vec![eqp(&inv.a, &b), eqp(&inv.b, &a)]));
    let mut m = s.clone();
    m.invert();
    ensure("invert swaps the ends", and(vec![eqp(&m.a, &b), eqp(&m.b, &a)]));
    let t = s.parameter_of_point(&p);
    // foot point of p: (p - a - t u) . u = 0; zero for a null segment
    let f = &dot_(&diff(&p, &a), &u) - &(&t * &dot_(&u, &u));
    ensure("parameter of the foot point", zero(&f));
    if split(&dot_(&u, &u), 2) {
        ensure("parameter on a null segment", zero(&t));
    }
}
fn seg_param_reproduces<const N: usize>()
where
    Point<S, N>: PointOps<S, N, Vector = Vector<S, N>>,
    Vector<S, N>: VectorOps<S, N>,
{
    let a = pt::<N>("a");
    let b = off(&a, "u");
    let k = var("k");
    require!(not(eqp(&a, &b)));
    let p = lerp(&a, &b, &k);
    let s = Segment::new(&a, &b);
    ensure("parameter reproduces the point", eq(&s.parameter_of_point(&p), &k));
    let on = s.is_point_on(&p);
    ensure("point of the line is on the segment iff 0<=k<=1", is_true_iff(on, and(vec![nonneg(&k), nonneg(&(&num(1) - &k))])));
}
fn seg_on_tolerant<const N: usize>()
where
    Point<S, N>: PointOps<S, N, Vector = Vector<S, N>>,
    Vector<S, N>: VectorOps<S, N>,
{
    let a = pt::<N>("a");
    let (b, p) = (off(&a, "u"), off(&a, "w"));
    let s = Segment::new(&a, &b);
    if s.is_point_on(&p) {
        let t = s.parameter_of_point(&p);
        let u = diff(&b, &a);
        let w = diff(&p, &a);
        for i in 0..N {
            for j in 0..N {
                if i != j {
                    // |w_i u_j - w_j u_i| <= 2e-10 |u_i u_j| when both move, exact otherwise
                    let c = (&(&w[i] * &u[j]) - &(&w[j] * &u[i])).abs();
                    let bound = &(&u[i] * &u[j]).abs() * &ratio(4, 10_000_000_000);
                    ensure("on implies nearly proportional", le(&c, &bound));
                }
            }
        }
    }
}
pub fn list() -> Vec<Decl> {
    vec![
        proof("segments 2D", &["segment_segment_intersection_2"], seg2),
        proof("segments 3D, meeting lines", &["segment_segment_intersection_3"], seg3_meeting),
        proof("segments 3D, skew", &["segment_segment_intersection_3"], seg3_skew),
        proof("segments 3D, parallel", &["segment_segment_intersection_3"], seg3_parallel),
        proof("segments 3D, collinear", &["segment_segment_intersection_3"], seg3_collinear),
        proof("edge-edge 2D", &["edge_edge_intersection_2"], edge_edge),
        proof("ray-segment 2D", &["ray_segment_intersection_2d"], ray_segment),
        proof("ray-segment null direction", &["ray_segment_intersection_2d"], ray_zero_direction),
        proof("segment operations 2D", &["Segment::midpoint", "Segment::length2", "Segment::direction", "Segment::inverse", "Segment::invert", "Segment::parameter_of_point"], seg_ops::<2>),
        proof("segment operations 3D", &["Segment::midpoint", "Segment::length2", "Segment::direction", "Segment::inverse", "Segment::invert", "Segment::parameter_of_point"], seg_ops::<3>),
        proof("segment parameter reproduces 2D", &["Segment::parameter_of_point", "Segment::is_point_on"], seg_param_reproduces::<2>),
        proof("segment parameter reproduces 3D", &["Segment::parameter_of_point", "Segment::is_point_on"], seg_param_reproduces::<3>),
        proof("tolerant point-on 2D", &["Segment::is_point_on"], seg_on_tolerant::<2>),
        proof("tolerant point-on 3D", &["Segment::is_point_on"], seg_on_tolerant::<3>),
    ]
}
