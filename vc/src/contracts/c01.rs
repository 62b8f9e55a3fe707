use cgar::kernel::orientation::orient;
use cgar::kernel::predicates::*;

fn orient_2() {
    let (a, b, c) = (pt::<2>("a"), pt::<2>("b"), pt::<2>("c"));
    let r = orient::<S, 2>(&[a.clone(), b.clone(), c.clone()]);
    let d = det2(&diff(&b, &a), &diff(&c, &a));
    ensure("sign of signed area", and(vec![iff(pos(&r), pos(&d)), iff(neg(&r), neg(&d)), iff(zero(&r), zero(&d))]));
}
fn orient_3() {
    let (a, b, c, d) = (pt::<3>("a"), pt::<3>("b"), pt::<3>("c"), pt::<3>("d"));
    let r = orient::<S, 3>(&[a.clone(), b.clone(), c.clone(), d.clone()]);
    let v = det3(&diff(&b, &a), &diff(&c, &a), &diff(&d, &a));
    ensure("sign of signed volume", and(vec![iff(pos(&r), pos(&v)), iff(neg(&r), neg(&v)), iff(zero(&r), zero(&v))]));
}
fn equal<const N: usize>() {
    let (a, b) = (pt::<N>("a"), pt::<N>("b"));
    let r = are_equal(&a, &b);
    ensure("equal iff all coordinates equal", is_true_iff(r, eqp(&a, &b)));
}
fn collinear<const N: usize>() {
    let (a, b, c) = (pt::<N>("a"), pt::<N>("b"), pt::<N>("c"));
    // a==b is excluded: see point-on-segment for the degenerate case
    let r = are_collinear(&a, &b, &c);
    let u = diff(&b, &a);
    let v = diff(&c, &a);
    ensure("collinear iff rank<=1", or(vec![eqp(&a, &b), is_true_iff(r, parallel(&u, &v))]));
}
fn degenerate<const N: usize>() {
    let (a, b, c) = (pt::<N>("a"), pt::<N>("b"), pt::<N>("c"));
    let r = triangle_is_degenerate(&a, &b, &c);
    ensure("degenerate iff rank<=1", is_true_iff(r, parallel(&diff(&b, &a), &diff(&c, &a))));
}
fn on_segment<const N: usize>() {
    let (a, b, p) = (pt::<N>("a"), pt::<N>("b"), pt::<N>("p"));
    let r = is_point_on_segment(&p, &Segment::new(&a, &b));
    // p on [a,b]  <=>  (p-a) x (b-a) = 0  and  (p-a).(p-b) <= 0
    let spec = and(vec![parallel(&diff(&p, &a), &diff(&b, &a)), nonpos(&dot_(&diff(&p, &a), &diff(&p, &b)))]);
    ensure("on segment iff collinear and between", is_true_iff(r, spec));
}

fn u_on_segment<const N: usize>()
where
    Point<S, N>: PointOps<S, N, Vector = Vector<S, N>>,
    Vector<S, N>: VectorOps<S, N>,
{
    let (a, b, p) = (pt::<N>("a"), pt::<N>("b"), pt::<N>("p"));
    let on = and(vec![parallel(&diff(&p, &a), &diff(&b, &a)), nonpos(&dot_(&diff(&p, &a), &diff(&p, &b)))]);
    match point_u_on_segment(&a, &b, &p) {
        None => ensure("no parameter only off the segment", not(on)),
        Some(u) => {
            ensure("parameter only on the segment", on);
            ensure("parameter in [0,1]", and(vec![nonneg(&u), nonneg(&(&num(1) - &u))]));
            ensure("parameter reproduces the point", eqp(&lerp(&a, &b, &u), &p));
        }
    }
}
fn u_on_segment_tol<const N: usize>()
where
    Point<S, N>: PointOps<S, N, Vector = Vector<S, N>>,
    Vector<S, N>: VectorOps<S, N>,
{
    let (a, b, p) = (pt::<N>("a"), pt::<N>("b"), pt::<N>("p"));
    let tol = var("tol");
    require!(nonneg(&tol));
    require!(not(eqp(&a, &b)));
    let d = diff(&b, &a);
    let q = dot_(&diff(&p, &a), &d);
    let dd = dot_(&d, &d);
    let r = point_u_on_segment_with_tolerance(&a, &b, &p, &tol);
    let tt = &tol * &tol;
    let da = diff(&p, &a);
    let db = diff(&p, &b);
    if let Some(u) = &r {
        ensure("parameter is that of the foot point", zero(&(&(u * &dd) - &q)));
    }
    // squared distance to the segment, by the region of the foot point
    if split(&q, 1) {
        ensure("near the first end", is_true_iff(r.is_some(), le(&dot_(&da, &da), &tt)));
    } else if split(&(&dd - &q), 1) {
        ensure("near the second end", is_true_iff(r.is_some(), le(&dot_(&db, &db), &tt)));
    } else {
        let lhs = &(&dot_(&da, &da) * &dd) - &(&q * &q);
        ensure("near the interior", is_true_iff(r.is_some(), le(&lhs, &(&tt * &dd))));
    }
}
/// exact position class from the three edge functions of a non-degenerate triangle
fn expected(e: &[S; 3]) -> [F; 4] {
    let z = |i: usize| zero(&e[i]);
    let two = or(vec![and(vec![z(0), z(1)]), and(vec![z(1), z(2)]), and(vec![z(0), z(2)])]);
    let inside_closed = or(vec![
        and(vec![nonneg(&e[0]), nonneg(&e[1]), nonneg(&e[2])]),
        and(vec![nonpos(&e[0]), nonpos(&e[1]), nonpos(&e[2])]),
    ]);
    let any = or(vec![z(0), z(1), z(2)]);
    [
        not(inside_closed.clone()),
        and(vec![inside_closed.clone(), two.clone()]),
        and(vec![inside_closed.clone(), any.clone(), not(two)]),
        and(vec![inside_closed, not(any)]),
    ]
}
fn check_class(r: TrianglePoint, e: &[S; 3]) {
    let x = expected(e);
    match r {
        TrianglePoint::Off => ensure("outside exactly when outside", x[0].clone()),
        TrianglePoint::OnVertex => ensure("on a vertex exactly when at a corner", x[1].clone()),
        TrianglePoint::OnEdge => ensure("on an edge exactly when on one edge", x[2].clone()),
        TrianglePoint::In => ensure("inside exactly when strictly inside", x[3].clone()),
    }
}
fn in_triangle_2() {
    let (p, a, b, c) = (pt::<2>("p"), pt::<2>("a"), pt::<2>("b"), pt::<2>("c"));
    require!(nonzero(&det2(&diff(&b, &a), &diff(&c, &a))));
    let r = point_in_or_on_triangle(&p, &a, &b, &c);
    let e = [
        det2(&diff(&b, &a), &diff(&p, &a)),
        det2(&diff(&c, &b), &diff(&p, &b)),
        det2(&diff(&a, &c), &diff(&p, &c)),
    ];
    check_class(r, &e);
}
fn in_triangle_3() {
    let (p, a, b, c) = (pt::<3>("p"), pt::<3>("a"), pt::<3>("b"), pt::<3>("c"));
    let n = cross_(&diff(&b, &a), &diff(&c, &a));
    require!(not(and(vec![zero(&n[0]), zero(&n[1]), zero(&n[2])])));
    let r = point_in_or_on_triangle(&p, &a, &b, &c);
    let e = [
        dot_(&cross_(&diff(&b, &a), &diff(&p, &a)), &n),
        dot_(&cross_(&diff(&c, &b), &diff(&p, &b)), &n),
        dot_(&cross_(&diff(&a, &c), &diff(&p, &c)), &n),
    ];
    check_class(r, &e);
}
/// concrete: classification against barycentric coordinates of a constructed point
fn in_triangle_built<const N: usize>()
where
    Point<S, N>: PointOps<S, N, Vector = Vector<S, N>>,
    Vector<S, N>: VectorOps<S, N>,
{
    let (a, b, c) = (pt::<N>("a"), pt::<N>("b"), pt::<N>("c"));
    require!(not(parallel(&diff(&b, &a), &diff(&c, &a))));
    let (u, v) = (var("u"), var("v"));
    let w = &(&num(1) - &u) - &v;
    let p: Point<S, N> = Point { coords: std::array::from_fn(|i| &(&(&w * &a.coords[i]) + &(&u * &b.coords[i])) + &(&v * &c.coords[i])) };
    let r = point_in_or_on_triangle(&p, &a, &b, &c);
    check_class(r, &[v, w, u]);
}
fn in_triangle_degenerate<const N: usize>()
where
    Point<S, N>: PointOps<S, N, Vector = Vector<S, N>>,
    Vector<S, N>: VectorOps<S, N>,
{
    let (a, b, p) = (pt::<N>("a"), pt::<N>("b"), pt::<N>("p"));
    let k = var("k");
    let c = lerp(&a, &b, &k);
    let r = point_in_or_on_triangle(&p, &a, &b, &c);
    ensure("nothing lies in a degenerate triangle", bool_(r == TrianglePoint::Off));
}
fn orient2d_filtered() {
    let (a, b, c) = (pt::<2>("a"), pt::<2>("b"), pt::<2>("c"));
    let d = det2(&diff(&b, &a), &diff(&c, &a));
    let r = orient2d(&a, &b, &c);
    ensure("zero or the signed area", or(vec![zero(&r), eq(&r, &d)]));
    if !SYMBOLIC {
        // magnitude of the coordinates bounds what may be flushed to zero
        let mut m = num(0);
        for x in [&a, &b, &c] {
            for i in 0..2 {
                m = m + x.coords[i].abs();
            }
        }
        let big = &d.abs() - &(&m * &ratio(1, 1_000_000_000));
        ensure("clearly non-degenerate triangles are not flushed", imp(pos(&big), eq(&r, &d)));
    }
}
fn incircle_filtered() {
    let (a, b, c, d) = (pt::<2>("a"), pt::<2>("b"), pt::<2>("c"), pt::<2>("d"));
    let (u, v, w) = (diff(&a, &d), diff(&b, &d), diff(&c, &d));
    let row = |x: &[S; 2]| [x[0].clone(), x[1].clone(), dot_(x, x)];
    let det = det3(&row(&u), &row(&v), &row(&w));
    let r = incircle(&a, &b, &c, &d);
    ensure("zero or the in-circle determinant", or(vec![zero(&r), eq(&r, &det)]));
    if !SYMBOLIC {
        let mut m = num(1);
        for x in [&u, &v, &w] {
            for i in 0..2 {
                m = m + x[i].abs();
            }
        }
        let big = &det.abs() - &(&(&m * &m) * &ratio(1, 1_000_000_000));
        ensure("clear in-circle cases are not flushed", imp(pos(&big), eq(&r, &det)));
    }
}
fn centroid() {
    let (a, b) = (pt::<2>("a"), pt::<2>("b"));
    let r = centroid2(&a, &b);
    for i in 0..2 {
        ensure("centroid is the mean", eq(&(&r.coords[i] * &num(2)), &(&a.coords[i] + &b.coords[i])));
    }
}
pub fn list() -> Vec<Decl> {
    vec![
        proof("point in triangle 3D", &["point_in_or_on_triangle"], in_triangle_3).approx(&[0.0, 1.0, -1.0]),
        proof("tolerant parameter 3D", &["point_u_on_segment_with_tolerance"], u_on_segment_tol::<3>),
        proof("point in triangle 2D", &["point_in_or_on_triangle"], in_triangle_2).approx(&[0.0, 1.0, -1.0]),
        bounded("point in triangle 2D, built points", &["point_in_or_on_triangle"], in_triangle_built::<2>),
        bounded("point in triangle 3D, built points", &["point_in_or_on_triangle"], in_triangle_built::<3>),
        proof("point in degenerate triangle 2D", &["point_in_or_on_triangle"], in_triangle_degenerate::<2>).approx(&[0.0, 1.0, -1.0]),
        proof("point in degenerate triangle 3D", &["point_in_or_on_triangle"], in_triangle_degenerate::<3>).approx(&[0.0, 1.0, -1.0]),
        proof("orient 2D", &["orient"], orient_2),
        proof("orient 3D", &["orient"], orient_3),
        proof("orient2d filtered", &["orient2d"], orient2d_filtered).approx(&[0.0, 1.0, -1.0]),
        proof("incircle filtered", &["incircle"], incircle_filtered),
        proof("are_equal 2D", &["are_equal"], equal::<2>),
        proof("are_equal 3D", &["are_equal"], equal::<3>),
        proof("are_collinear 2D", &["are_collinear"], collinear::<2>),
        proof("are_collinear 3D", &["are_collinear"], collinear::<3>),
        proof("degenerate 2D", &["triangle_is_degenerate"], degenerate::<2>),
        proof("degenerate 3D", &["triangle_is_degenerate"], degenerate::<3>),
        proof("on segment 2D", &["is_point_on_segment"], on_segment::<2>),
        proof("on segment 3D", &["is_point_on_segment"], on_segment::<3>),
        proof("segment parameter 2D", &["point_u_on_segment"], u_on_segment::<2>),
        proof("segment parameter 3D", &["point_u_on_segment"], u_on_segment::<3>),
        proof("tolerant parameter 2D", &["point_u_on_segment_with_tolerance"], u_on_segment_tol::<2>),
        proof("centroid2", &["centroid2"], centroid),
    ]
}
