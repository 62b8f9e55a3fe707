use cgar::geometry::tri_tri_intersect::*;

type P3 = Point<S, 3>;
type P2 = (S, S);

/// One proof case: which function, which way round, which corner comes first, which axes the double
/// approximations of the two normals suggest to drop.
#[derive(Clone, Copy)]
struct Case { f: usize, swap: bool, rot: usize, axes: (usize, usize), flat: bool }
fn case(f: usize, cut: usize, line: usize) -> Case {
    if SYMBOLIC {
        if line == 8 { return Case { f, ..case(0, cut, 2) }; }
        return Case { f, swap: (f + cut + line) % 2 == 1, rot: (f + cut + line) % 3, axes: ((f + line) % 3, (f + 2 * line + cut) % 3), flat: false };
    }
    Case { f, swap: choose(2) == 1, rot: choose(3), axes: (0, 0), flat: choose(4) == 0 }
}
fn start(c: &Case) {
    merge_only_equal();
    let one = |k: usize, i: usize| if k == i { Some(1.0) } else { None };
    let (a, b) = c.axes;
    doubles(&[one(a, 0), one(a, 1), one(a, 2), one(b, 0), one(b, 1), one(b, 2)]);
}

/// A non-degenerate triangle as a frame: corners o+u, o+v, o and normal n = u x v.
struct Frame { o: P3, u: [S; 3], v: [S; 3], n: [S; 3], nn: S }
impl Frame {
    fn new(c: &Case) -> Frame {
        let o = pt::<3>("o");
        let (mut u, mut v) = (pt::<3>("u").coords, pt::<3>("v").coords);
        let ax = if SYMBOLIC { c.axes.0 } else if c.flat { choose(3) } else { 0 };
        if c.flat { u[ax] = num(0); v[ax] = num(0); }
        let n = cross_(&u, &v);
        let nn = dot_(&n, &n);
        need(pos(&nn));
        for k in 0..3 {
            if SYMBOLIC && !(c.flat && k != ax) { need(nonzero(&n[k])); }
            factor(&n[k]);
        }
        factor(&nn);
        Frame { o, u, v, n, nn }
    }
    fn at(&self, x: &S, y: &S, z: &S) -> P3 {
        Point { coords: std::array::from_fn(|k| &(&(&self.o[k] + &(x * &self.u[k])) + &(y * &self.v[k])) + &(z * &self.n[k])) }
    }
    fn flat(&self, q: &P2) -> P3 { self.at(&q.0, &q.1, &num(0)) }
    fn tri(&self) -> [P3; 3] { std::array::from_fn(|k| self.flat(&corner(k))) }
    /// coordinates in the frame of the projection of e onto the plane
    fn coords(&self, e: &P3) -> P2 {
        let d = diff(e, &self.o);
        (&dot_(&cross_(&d, &self.v), &self.n) / &self.nn, &dot_(&cross_(&self.u, &d), &self.n) / &self.nn)
    }
}
fn corner(k: usize) -> P2 { (num((k == 0) as i64), num((k == 1) as i64)) }
fn in_unit(q: &P2) -> F { and(vec![nonneg(&q.0), nonneg(&q.1), le(&(&q.0 + &q.1), &num(1))]) }
fn along(i: &P2, j: &P2, s: &S) -> P2 { (&i.0 + &(s * &(&j.0 - &i.0)), &i.1 + &(s * &(&j.1 - &i.1))) }
fn side(i: &P2, j: &P2, q: &P2) -> S { det2(&[&j.0 - &i.0, &j.1 - &i.1], &[&q.0 - &i.0, &q.1 - &i.1]) }
fn nz(x: &S) { if SYMBOLIC { need(nonzero(x)); } }

/// Ends of the segment in which the second triangle meets the plane of the first.
type Line = fn(usize) -> (P2, P2);
/// its line passes through no corner of the first triangle
fn past_corners(_: usize) -> (P2, P2) {
    let (i, j) = ((var("x1"), var("y1")), (var("x2"), var("y2")));
    for k in 0..3 { nz(&side(&i, &j, &corner(k))); }
    (i, j)
}
/// ... through one corner
fn through_corner(k: usize) -> (P2, P2) {
    let q = corner(if SYMBOLIC { k } else { choose(3) });
    let (s, dx, dy) = (var("s"), var("dx"), var("dy"));
    let i = (&q.0 + &(&s * &dx), &q.1 + &(&s * &dy));
    let j = (&i.0 + &dx, &i.1 + &dy);
    for m in 0..3 {
        let o = corner(m);
        if m != k { nz(&det2(&[dx.clone(), dy.clone()], &[&o.0 - &q.0, &o.1 - &q.1])); }
    }
    (i, j)
}
/// ... along an edge
fn along_edge(k: usize) -> (P2, P2) {
    let k = if SYMBOLIC { k } else { choose(3) };
    let (q, r) = (corner(k), corner((k + 1) % 3));
    let (s, t) = (var("s"), var("t"));
    need(ne(&s, &t));
    factor(&(&t - &s));
    (along(&q, &r, &s), along(&q, &r, &t))
}

/// The second triangle and the segment in which it meets the plane of the first.
struct Cut { i: P2, j: P2, tri: [P3; 3] }
fn ends(f: &Frame, line: Line, k: usize) -> (P2, P2) {
    let (i, j) = line(k);
    let (dx, dy) = (&j.0 - &i.0, &j.1 - &i.1);
    let l2 = &(&dx * &dx) + &(&dy * &dy);
    need(pos(&l2));
    factor(&l2);
    let ij = diff(&f.flat(&j), &f.flat(&i));
    let d2 = dot_(&ij, &ij);
    need(pos(&d2));
    factor(&d2);
    (i, j)
}
fn normal(a: &P3, b: &P3, c: &P3) {
    let m = cross_(&diff(b, a), &diff(c, a));
    for k in 0..3 { nz(&m[k]); factor(&m[k]); }
}
fn apex(f: &Frame, s: usize) -> P3 {
    let (a, b, c) = (var("a"), var("b"), var("c"));
    if SYMBOLIC { need(sgn(&c, if s % 2 == 0 { 4 } else { 1 })); } else { need(nonzero(&c)); }
    factor(&c);
    f.at(&a, &b, &c)
}
/// the point beyond q as seen from p
fn beyond(p: &P3, q: &P3, k: &str) -> P3 {
    let k = &num(1) + &varm(k, 4);
    need(pos(&k));
    factor(&k);
    lerp(p, q, &k)
}
fn turn(t: [P3; 3], s: usize) -> [P3; 3] { std::array::from_fn(|k| t[(k + 3 - s) % 3].clone()) }
type Shape = fn(&Frame, &Case, Line) -> Cut;
/// one corner strictly on one side of the plane, two strictly on the other
fn crossing(f: &Frame, c: &Case, line: Line) -> Cut {
    let p = apex(f, c.rot + c.axes.1);
    let (i, j) = ends(f, line, (c.rot + c.axes.0) % 3);
    let (wi, wj) = (f.flat(&i), f.flat(&j));
    normal(&p, &wi, &wj);
    let (q, r) = (beyond(&p, &wi, "k1"), beyond(&p, &wj, "k2"));
    Cut { i, j, tri: turn([p, q, r], c.rot) }
}
/// one corner on the plane, the others strictly on different sides
fn through_vertex(f: &Frame, c: &Case, line: Line) -> Cut {
    let p = apex(f, c.rot + c.axes.1);
    let (i, j) = ends(f, line, (c.rot + c.axes.0) % 3);
    let (wi, wj) = (f.flat(&i), f.flat(&j));
    normal(&p, &wi, &wj);
    let q = beyond(&p, &wj, "k1");
    Cut { i, j, tri: turn([wi, p, q], c.rot) }
}
/// an edge in the plane
fn edge_in_plane(f: &Frame, c: &Case, line: Line) -> Cut {
    let p = apex(f, c.rot + c.axes.1);
    let (i, j) = ends(f, line, (c.rot + c.axes.0) % 3);
    let (wi, wj) = (f.flat(&i), f.flat(&j));
    normal(&p, &wi, &wj);
    Cut { i, j, tri: turn([wi, wj, p], c.rot) }
}

enum Ans { Nothing, Seg(P3, P3), Poly(Vec<(P3, P3)>) }
/// equal up to the distance below which the library merges points
fn same(a: &P3, b: &P3) -> F {
    if SYMBOLIC { return eqp(a, b); }
    let (d, m) = (diff(a, b), S::point_merge_threshold());
    le(&dot_(&d, &d), &(&m * &m))
}
fn contact(x: &ContactOnTri<S>, e: &P3, t: &[&P3; 3]) {
    match x {
        ContactOnTri::Vertex(k) => ensure("contact on a vertex", same(e, t[*k])),
        ContactOnTri::Edge { e: (a, b), u } => {
            ensure("contact on an edge at its parameter", same(e, &lerp(t[*a], t[*b], u)));
            ensure("edge parameter between zero and one", and(vec![nonneg(u), le(u, &num(1))]));
        }
        ContactOnTri::Interior { bary: (a, b, c) } => {
            let r = Point { coords: std::array::from_fn(|k| &(&(a * &t[0][k]) + &(b * &t[1][k])) + &(c * &t[2][k])) };
            ensure("contact at its barycentric coordinates", same(e, &r));
            ensure("barycentric coordinates of a contact", and(vec![nonneg(a), nonneg(b), nonneg(c), eq(&(&(a + b) + c), &num(1))]));
        }
    }
}
fn call(f: &Frame, tri: &[P3; 3], c: &Case, contacts: bool) -> Ans {
    let q = f.tri();
    let (p, q) = ([&tri[0], &tri[1], &tri[2]], [&q[0], &q[1], &q[2]]);
    let (p, q) = if c.swap { (q, p) } else { (p, q) };
    let r = match c.f {
        0 => tri_tri_intersection(&p, &q),
        1 => if SYMBOLIC || choose(2) == 0 { tri_tri_intersection_with_precomp(&p, &q, &TriPrecomp::new(&p), &TriPrecomp::new(&q)) } else { tri_tri_intersection_with_precomp_p(&p, &q, &TriPrecomp::new(&p)) },
        _ => {
            return match tri_tri_intersection_detailed(&p, &q) {
                TriTriIntersectionDetailed::None => Ans::Nothing,
                TriTriIntersectionDetailed::Proper { ends } => {
                    if contacts { for x in &ends { contact(&x.on_p, &x.point, &p); contact(&x.on_q, &x.point, &q); } }
                    Ans::Seg(ends[0].point.clone(), ends[1].point.clone())
                }
                TriTriIntersectionDetailed::Coplanar { segs } => {
                    if contacts { for s in &segs { for x in s { contact(&x.on_p, &x.point, &p); contact(&x.on_q, &x.point, &q); } } }
                    if segs.len() == 1 { Ans::Seg(segs[0][0].point.clone(), segs[0][1].point.clone()) }
                    else { Ans::Poly(segs.iter().map(|s| (s[0].point.clone(), s[1].point.clone())).collect()) }
                }
            }
        }
    };
    match r {
        TriTriIntersectionResult::Proper(s) | TriTriIntersectionResult::Coplanar(s) => Ans::Seg(s.a.clone(), s.b.clone()),
        TriTriIntersectionResult::None => Ans::Nothing,
        TriTriIntersectionResult::CoplanarPolygon(v) => Ans::Poly(v.iter().map(|s| (s.a.clone(), s.b.clone())).collect()),
    }
}

/// parameter along the cut of a reported end
fn param(f: &Frame, c: &Cut, e: &P3, check: bool) -> S {
    let q = f.coords(e);
    let (dx, dy) = (&c.j.0 - &c.i.0, &c.j.1 - &c.i.1);
    let l2 = &(&dx * &dx) + &(&dy * &dy);
    let s = &(&(&(&q.0 - &c.i.0) * &dx) + &(&(&q.1 - &c.i.1) * &dy)) / &l2;
    if check {
        let l = along(&c.i, &c.j, &s);
        ensure("reported end in the plane of the first triangle", eqp(e, &f.flat(&q)));
        ensure("reported end on the first triangle", in_unit(&q));
        ensure("reported end in the plane of the second triangle", and(vec![eq(&q.0, &l.0), eq(&q.1, &l.1)]));
        ensure("reported end on the second triangle", and(vec![nonneg(&s), le(&s, &num(1))]));
    }
    s
}
fn sound(shape: Shape, line: Line, c: Case) {
    start(&c);
    let f = Frame::new(&c);
    let cut = shape(&f, &c, line);
    match call(&f, &cut.tri, &c, true) {
        Ans::Nothing => mark("nothing is reported"),
        Ans::Poly(_) => ensure("no polygon for crossing planes", ff()),
        Ans::Seg(a, b) => {
            mark("a common part is reported");
            param(&f, &cut, &a, true);
            param(&f, &cut, &b, true);
        }
    }
}
fn complete(shape: Shape, line: Line, c: Case) {
    start(&c);
    let f = Frame::new(&c);
    let cut = shape(&f, &c, line);
    // a common point w
    let w = varm("w", NN);
    need(le(&w, &num(1)));
    let q = along(&cut.i, &cut.j, &w);
    need(in_unit(&q));
    match call(&f, &cut.tri, &c, false) {
        Ans::Nothing => ensure("a common point is not missed", ff()),
        Ans::Poly(_) => {}
        Ans::Seg(a, b) => {
            let (s, r) = (param(&f, &cut, &a, false), param(&f, &cut, &b, false));
            let d = diff(&f.flat(&q), &a);
            let m = S::point_merge_threshold();
            let merged = and(vec![eqp(&a, &b), le(&dot_(&d, &d), &(&m * &m))]);
            ensure("every common point is between the reported ends", or(vec![merged, and(vec![le(&s, &w), le(&w, &r)]), and(vec![le(&r, &w), le(&w, &s)])]));
        }
    }
}
macro_rules! fam { ($($n:ident $m:ident $shape:ident $line:ident $f:expr, $c:expr, $l:expr;)*) => { $(
    fn $n() { sound($shape, $line, case($f, $c, $l)) }
    fn $m() { complete($shape, $line, case($f, $c, $l)) }
)* } }
fam! {
    s000 c000 crossing past_corners 0, 0, 0;
    s001 c001 crossing through_corner 0, 0, 1;
    s002 c002 crossing along_edge 0, 0, 2;
    s010 c010 through_vertex past_corners 0, 1, 0;
    s011 c011 through_vertex through_corner 0, 1, 1;
    s012 c012 through_vertex along_edge 0, 1, 2;
    s020 c020 edge_in_plane past_corners 0, 2, 0;
    s021 c021 edge_in_plane through_corner 0, 2, 1;
    s022 c022 edge_in_plane along_edge 0, 2, 2;
    s100 c100 crossing past_corners 1, 0, 0;
    s101 c101 crossing through_corner 1, 0, 1;
    s102 c102 crossing along_edge 1, 0, 8;
    s110 c110 through_vertex past_corners 1, 1, 0;
    s111 c111 through_vertex through_corner 1, 1, 1;
    s112 c112 through_vertex along_edge 1, 1, 2;
    s120 c120 edge_in_plane past_corners 1, 2, 0;
    s121 c121 edge_in_plane through_corner 1, 2, 1;
    s122 c122 edge_in_plane along_edge 1, 2, 2;
    s200 c200 crossing past_corners 2, 0, 0;
    s201 c201 crossing through_corner 2, 0, 1;
    s202 c202 crossing along_edge 2, 0, 2;
    s210 c210 through_vertex past_corners 2, 1, 0;
    s211 c211 through_vertex through_corner 2, 1, 1;
    s212 c212 through_vertex along_edge 2, 1, 2;
    s220 c220 edge_in_plane past_corners 2, 2, 0;
    s221 c221 edge_in_plane through_corner 2, 2, 1;
    s222 c222 edge_in_plane along_edge 2, 2, 2;
}

/// strictly on one side of the plane of the first triangle
fn apart(f: usize) {
    let c = Case { f, swap: choose(2) == 1, rot: 0, axes: (f % 3, (f + 1) % 3), flat: false };
    start(&c);
    let fr = Frame::new(&c);
    let up = if choose(2) == 0 { 4 } else { 1 };
    let t: [P3; 3] = std::array::from_fn(|k| fr.at(&var(&format!("a{}", k)), &var(&format!("b{}", k)), &varm(&format!("c{}", k), up)));
    if c.swap && SYMBOLIC { return; }
    let none = matches!(call(&fr, &t, &c, false), Ans::Nothing);
    ensure("nothing is reported on one side of the plane", bool_(none));
}
fn apart_0() { apart(0) }
fn apart_1() { apart(1) }
fn apart_2() { apart(2) }
/// one corner on the plane, the others strictly on the same side
fn touch() {
    let c = Case { f: choose(3), swap: choose(2) == 1, rot: choose(3), axes: (0, 0), flat: choose(4) == 0 };
    start(&c);
    let f = Frame::new(&c);
    let q = match choose(4) { 0 => corner(choose(3)), 1 => along(&corner(choose(3)), &corner(choose(3)), &var("s")), _ => (var("x"), var("y")) };
    let p = f.flat(&q);
    let up = if choose(2) == 0 { 4 } else { 1 };
    let r: [P3; 2] = std::array::from_fn(|k| f.at(&var(&format!("a{}", k)), &var(&format!("b{}", k)), &varm(&format!("c{}", k), up)));
    need(not(parallel(&diff(&r[0], &p), &diff(&r[1], &p))));
    let t = turn([p.clone(), r[0].clone(), r[1].clone()], c.rot);
    match call(&f, &t, &c, true) {
        Ans::Nothing => ensure("a touching corner is not missed", not(in_unit(&q))),
        Ans::Poly(_) => ensure("no polygon", ff()),
        Ans::Seg(a, b) => {
            ensure("a touching corner is on the first triangle", in_unit(&q));
            ensure("the touching corner is reported", and(vec![same(&a, &p), same(&b, &p)]));
        }
    }
}
/// coplanar triangles: what is reported is the common part, corner for corner
fn coplanar() {
    let c = Case { f: choose(3), swap: choose(2) == 1, rot: 0, axes: (0, 0), flat: choose(4) == 0 };
    start(&c);
    let f = Frame::new(&c);
    let mut q: Vec<P2> = vec![];
    for k in 0..3 {
        q.push(match choose(7) {
            0 => corner(choose(3)),
            1 => along(&corner(choose(3)), &corner(choose(3)), &var(&format!("s{}", k))),
            2 if k > 0 => along(&q[k - 1].clone(), &corner(choose(3)), &var(&format!("s{}", k))),
            _ => (var(&format!("x{}", k)), var(&format!("y{}", k))),
        });
    }
    let area = side(&q[0], &q[1], &q[2]);
    need(nonzero(&area));
    let t: [P3; 3] = std::array::from_fn(|k| f.flat(&q[k]));
    let inside = |x: &P2| and(vec![in_unit(x), and((0..3).map(|k| nonneg(&(&side(&q[k], &q[(k + 1) % 3], x) * &area))).collect())]);
    // the corners of the common part: corners of one in the other, crossings of edges
    let mut want: Vec<P2> = vec![];
    for k in 0..3 { want.push(corner(k)); want.push(q[k].clone()); }
    for i in 0..3 {
        for j in 0..3 {
            let (a, b, d, e) = (corner(i), corner((i + 1) % 3), &q[j], &q[(j + 1) % 3]);
            let (s1, s2) = (side(d, e, &a), side(d, e, &b));
            if split(&(&s1 - &s2), 5) { want.push(along(&a, &b, &(&s1 / &(&s1 - &s2)))); }
        }
    }
    let want: Vec<P2> = want.into_iter().filter(|x| split_f(inside(x))).collect();
    let got = match call(&f, &t, &c, true) { Ans::Nothing => vec![], Ans::Seg(a, b) => vec![a, b], Ans::Poly(v) => v.into_iter().flat_map(|(a, b)| [a, b]).collect() };
    for e in &got {
        let x = f.coords(e);
        ensure("reported corner in the common plane", eqp(e, &f.flat(&x)));
        ensure("reported corner on both triangles", inside(&x));
    }
    ensure("nothing is reported exactly when nothing is common", bool_(got.is_empty() == want.is_empty()));
    // every corner of the common part is reported, up to the merging distance, or lies between reported ones
    let m = S::point_merge_threshold();
    let near = |a: &P3, b: &P3| { let d = diff(a, b); le(&dot_(&d, &d), &(&m * &m)) };
    for w in &want {
        let w3 = f.flat(w);
        let mut alts: Vec<F> = got.iter().map(|e| near(e, &w3)).collect();
        for s in got.chunks(2) {
            if s.len() == 2 {
                let (d, e) = (diff(&s[1], &s[0]), diff(&w3, &s[0]));
                alts.push(and(vec![parallel(&d, &e), nonneg(&dot_(&d, &e)), le(&dot_(&d, &e), &dot_(&d, &d))]));
            }
        }
        ensure("every corner of the common part is reported", or(alts));
    }
}
fn split_f(_f: F) -> bool {
    if SYMBOLIC { return true; }
    holds(&_f)
}
fn flat2() -> (Point<S, 2>, [S; 2]) { let a = pt::<2>("a"); let d = pt::<2>("d").coords; (a, d) }
/// segments a..a+d and b..b+e with d, e not parallel; the crossing point of the lines is a+s*d = b+t*e
fn seg_cross() {
    let (a, d) = flat2();
    let e = pt::<2>("e").coords;
    require!(nonzero(&det2(&d, &e)));
    let (s, t) = (var("s"), var("t"));
    let x = Point { coords: std::array::from_fn(|k| &a[k] + &(&s * &d[k])) };
    let b = Point { coords: std::array::from_fn(|k| &x[k] - &(&t * &e[k])) };
    let (a1, b1) = (plus(&a, &d), plus(&b, &e));
    let common = and(vec![nonneg(&s), le(&s, &num(1)), nonneg(&t), le(&t, &num(1))]);
    match segment_intersect_2d(&a, &a1, &b, &b1) {
        None => ensure("no crossing only when the segments do not meet", not(common)),
        Some(g) => {
            ensure("a crossing only when the segments meet", common);
            ensure("the crossing point", and(vec![eqp(&g.a, &x), eqp(&g.b, &x)]));
        }
    }
}
/// parallel: b = a + s*d + h*perp(d), e = k*d
fn seg_par() {
    let (a, d) = flat2();
    require!(or(d.iter().map(nonzero).collect()));
    let (s, h, k) = (var("s"), var("h"), var("k"));
    let perp = [&num(0) - &d[1], d[0].clone()];
    let b = Point { coords: std::array::from_fn(|i| &(&a[i] + &(&s * &d[i])) + &(&h * &perp[i])) };
    let e: [S; 2] = std::array::from_fn(|i| &k * &d[i]);
    let (a1, b1) = (plus(&a, &d), plus(&b, &e));
    let l2 = dot_(&d, &d);
    need(pos(&l2));
    factor(&l2);
    let sk = &s + &k;
    let (lo, hi) = if split(&k, 1) { (&sk, &s) } else { (&s, &sk) };
    let meet = and(vec![zero(&h), le(lo, &num(1)), nonneg(hi)]);
    match segment_intersect_2d(&a, &a1, &b, &b1) {
        None => ensure("no overlap only when the segments do not meet", not(meet)),
        Some(g) => {
            ensure("an overlap only when the segments meet", meet);
            let p = |t: &S| Point { coords: std::array::from_fn::<S, 2, _>(|i| &a[i] + &(t * &d[i])) };
            let from = if split(lo, 1) { num(0) } else { lo.clone() };
            let to = if split(&(hi - &num(1)), 4) { num(1) } else { hi.clone() };
            ensure("the overlap", and(vec![eqp(&g.a, &p(&from)), eqp(&g.b, &p(&to))]));
        }
    }
}
fn hull(n: usize) {
    let p: Vec<Point<S, 2>> = (0..n).map(|k| pt::<2>(&format!("p{}_", k))).collect();
    // not all on one line, all different
    let t = |i: usize, j: usize, k: usize| det2(&diff(&p[j], &p[i]), &diff(&p[k], &p[i]));
    let mut tri = vec![];
    for i in 0..n { for j in i + 1..n { need(not(eqp(&p[i], &p[j]))); for k in j + 1..n { tri.push(nonzero(&t(i, j, k))); } } }
    need(or(tri));
    let h = convex_hull_2d_indices(&p);
    ensure("a hull has at least three corners", bool_(h.len() >= 3));
    if h.len() < 3 { return; }
    for w in 0..h.len() {
        let (i, j, k) = (h[w], h[(w + 1) % h.len()], h[(w + 2) % h.len()]);
        ensure("the hull turns left at each corner", pos(&t(i, j, k)));
        for m in 0..n { ensure("every point is left of every hull edge", nonneg(&t(i, j, m))); }
    }
}
fn hull3() { hull(3) }
fn hull4() { hull(4) }

const F0: &[&str] = &["tri_tri_intersection", "clip_segment_to_triangle_in_plane", "coplanar_axes", "project_to_2d"];
const F1: &[&str] = &["tri_tri_intersection_with_precomp", "TriPrecomp::new", "TriPrecomp::inside_2d", "clip_segment_to_triangle_in_plane", "coplanar_axes", "project_to_2d"];
const F2: &[&str] = &["tri_tri_intersection_detailed", "tri_tri_intersection_with_precomp_detailed", "classify_on_tri", "edge_param_along", "push_uniq_info", "merge_contact", "snap_exterior_to_edge", "TriPrecomp::new", "TriPrecomp::inside_2d", "clip_segment_to_triangle_in_plane", "coplanar_axes", "project_to_2d"];
macro_rules! decls { ($($n:literal $fs:ident $s:ident $c:ident;)*) => { vec![ $(
    proof(concat!($n, ": ends on both"), $fs, $s),
    proof(concat!($n, ": nothing missed"), $fs, $c),
)* ] } }
pub fn list() -> Vec<Decl> {
    let mut v = decls! {
        "crossing, past the corners" F0 s000 c000;
        "crossing, through a corner" F0 s001 c001;
        "crossing, along an edge" F0 s002 c002;
        "vertex on plane, past the corners" F0 s010 c010;
        "vertex on plane, through a corner" F0 s011 c011;
        "vertex on plane, along an edge" F0 s012 c012;
        "edge in plane, past the corners" F0 s020 c020;
        "edge in plane, through a corner" F0 s021 c021;
        "edge in plane, along an edge" F0 s022 c022;
        "precomputed: crossing, past the corners" F1 s100 c100;
        "precomputed: crossing, through a corner" F1 s101 c101;
        "precomputed: crossing, along an edge" F1 s102 c102;
        "precomputed: vertex on plane, past the corners" F1 s110 c110;
        "precomputed: vertex on plane, through a corner" F1 s111 c111;
        "precomputed: vertex on plane, along an edge" F1 s112 c112;
        "precomputed: edge in plane, past the corners" F1 s120 c120;
        "precomputed: edge in plane, through a corner" F1 s121 c121;
        "precomputed: edge in plane, along an edge" F1 s122 c122;
    };
    v.extend([
        proof("detailed: edge in plane, along an edge: ends on both", F2, s222),
        proof("detailed: edge in plane, along an edge: nothing missed", F2, c222),
        bounded("detailed: crossing, past the corners: ends on both", F2, s200),
        bounded("detailed: crossing, past the corners: nothing missed", F2, c200),
        bounded("detailed: crossing, through a corner: ends on both", F2, s201),
        bounded("detailed: crossing, through a corner: nothing missed", F2, c201),
        bounded("detailed: crossing, along an edge: ends on both", F2, s202),
        bounded("detailed: crossing, along an edge: nothing missed", F2, c202),
        bounded("detailed: vertex on plane, past the corners: ends on both", F2, s210),
        bounded("detailed: vertex on plane, past the corners: nothing missed", F2, c210),
        bounded("detailed: vertex on plane, through a corner: ends on both", F2, s211),
        bounded("detailed: vertex on plane, through a corner: nothing missed", F2, c211),
        bounded("detailed: vertex on plane, along an edge: ends on both", F2, s212),
        bounded("detailed: vertex on plane, along an edge: nothing missed", F2, c212),
        bounded("detailed: edge in plane, past the corners: ends on both", F2, s220),
        bounded("detailed: edge in plane, past the corners: nothing missed", F2, c220),
        bounded("detailed: edge in plane, through a corner: ends on both", F2, s221),
        bounded("detailed: edge in plane, through a corner: nothing missed", F2, c221),
        proof("one side of the plane", F0, apart_0),
        proof("precomputed: one side of the plane", F1, apart_1),
        proof("detailed: one side of the plane", F2, apart_2),
        bounded("a vertex touching the plane", F0, touch),
        bounded("coplanar triangles", &["tri_tri_intersection", "coplanar_tri_tri_intersection", "point_in_tri_2d", "segment_intersect_2d", "convex_hull_2d_indices", "lift_to_plane"], coplanar),
        proof("segments in the plane: crossing", &["segment_intersect_2d"], seg_cross),
        proof("segments in the plane: parallel", &["segment_intersect_2d"], seg_par),
        proof("hull of three points", &["convex_hull_2d_indices"], hull3),
        proof("hull of four points", &["convex_hull_2d_indices"], hull4).within("four points"),
    ]);
    v
}
