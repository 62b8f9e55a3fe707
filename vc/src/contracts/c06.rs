use cgar::geometry::util::barycentric_coords;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::topology::{FindFaceResult, VertexRayResult};
use cgar::mesh::vertex::Vertex;

type V<const N: usize> = Vector<S, N>;

fn comb<const N: usize>(a: &Point<S, N>, s: &S, e: &[S; N], r: &S, f: &[S; N]) -> Point<S, N> {
    Point { coords: std::array::from_fn(|i| &(&a[i] + &(s * &e[i])) + &(r * &f[i])) }
}
fn nondegenerate<const N: usize>(e: &[S; N], f: &[S; N]) -> F { not(parallel(e, f)) }
/// normal offset: zero in 2D, an arbitrary multiple of the normal in 3D
fn lift<const N: usize>(p: &Point<S, N>, e: &[S; N], f: &[S; N], h: &str) -> Point<S, N> {
    if N == 2 { return p.clone(); }
    let n = cross_(&std::array::from_fn(|i| e[i].clone()), &std::array::from_fn(|i| f[i].clone()));
    let h = var(h);
    Point { coords: std::array::from_fn(|i| &p[i] + &(&h * &n[i])) }
}
fn bary<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = V<N>>, V<N>: VectorOps<S, N> {
    let a = pt::<N>("a");
    let (b, c, p) = (off(&a, "e"), off(&a, "f"), off(&a, "q"));
    let (e, f) = (diff(&b, &a), diff(&c, &a));
    match barycentric_coords(&p, &a, &b, &c) {
        None => ensure("no coordinates only for a degenerate triangle", parallel(&e, &f)),
        Some((u, v, w)) => {
            ensure("coordinates only for a proper triangle", nondegenerate(&e, &f));
            ensure("coordinates sum to one", eq(&(&(&u + &v) + &w), &num(1)));
            let r: [S; N] = std::array::from_fn(|i| &p[i] - &(&(&(&u * &a[i]) + &(&v * &b[i])) + &(&w * &c[i])));
            ensure("residual perpendicular to the first edge", zero(&dot_(&r, &e)));
            ensure("residual perpendicular to the second edge", zero(&dot_(&r, &f)));
            if N == 2 {
                ensure("reproduces the point", and((0..N).map(|i| zero(&r[i])).collect()));
            }
        }
    }
}
fn one_face<const N: usize>(p: [&Point<S, N>; 3], rot: usize) -> Mesh<S, N> where Point<S, N>: PointOps<S, N, Vector = V<N>>, V<N>: VectorOps<S, N> {
    let mut m = Mesh::<S, N>::new();
    for q in p { m.vertices.push(Vertex::new(q.clone())); }
    m.add_triangle(0, 1, 2);
    for _ in 0..rot { m.faces[0].half_edge = m.half_edges[m.faces[0].half_edge].next; }
    m
}
fn tail<const N: usize>(m: &Mesh<S, N>, he: usize) -> usize { m.half_edges[m.half_edges[he].prev].vertex }
fn head<const N: usize>(m: &Mesh<S, N>, he: usize) -> usize { m.half_edges[he].vertex }

/// what a location answer must satisfy for the point q of the plane of face `face`
/// whose coordinates over the vertices `ids` are `l` (all non-negative)
fn located<const N: usize>(m: &Mesh<S, N>, r: FindFaceResult<S>, face: usize, ids: [usize; 3], l: [&S; 3], q: &Point<S, N>) {
    match r {
        FindFaceResult::Inside { f, bary } => {
            ensure("inside: the face", bool_(f == face));
            ensure("inside only without a zero coordinate", and(l.iter().map(|x| pos(x)).collect()));
            let fv = m_face(m, f);
            let bs = [&bary.0, &bary.1, &bary.2];
            for (k, v) in fv.iter().enumerate() {
                let j = ids.iter().position(|x| x == v).unwrap();
                ensure("inside: the coordinate of each corner", eq(bs[k], l[j]));
            }
        }
        FindFaceResult::OnEdge { f, he, u } => {
            ensure("on an edge: the face", bool_(f == face && he < m.half_edges.len() && m.half_edges[he].face == Some(face)));
            let (s, t) = (tail(m, he), head(m, he));
            ensure("on an edge: parameter reproduces the point", eqp(q, &lerp(&m.vertices[s].position, &m.vertices[t].position, &u)));
            ensure("on an edge: not at its ends", and(vec![pos(&u), lt(&u, &num(1))]));
        }
        FindFaceResult::OnVertex { f, v } => {
            ensure("on a vertex: the face", bool_(f == face && ids.contains(&v)));
            ensure("on a vertex: the point", eqp(q, &m.vertices[v].position));
        }
    }
}
/// corners of a face by walking its half-edges
fn m_face<const N: usize>(m: &Mesh<S, N>, f: usize) -> [usize; 3] {
    let h = m.faces[f].half_edge;
    let h1 = m.half_edges[h].next;
    [tail(m, h), head(m, h), head(m, h1)]
}
/// a non-degenerate triangle and a point of the closed triangle with its coordinates
fn tri_point<const N: usize>() -> ([Point<S, N>; 3], [S; 3], Point<S, N>, [[S; N]; 2]) {
    let a = pt::<N>("a");
    let (b, c) = (off(&a, "e"), off(&a, "f"));
    let (e, f) = (diff(&b, &a), diff(&c, &a));
    need(nondegenerate(&e, &f));
    let (l1, l2) = (varm("l1", NN), varm("l2", NN));
    let l0 = &(&num(1) - &l1) - &l2;
    need(nonneg(&l0));
    let q = comb(&a, &l1, &e, &l2, &f);
    ([a, b, c], [l0, l1, l2], q, [e, f])
}
fn location<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = V<N>>, V<N>: VectorOps<S, N> {
    let (t, l, q, [e, f]) = tri_point::<N>();
    let p = lift(&q, &e, &f, "h");
    let m = one_face([&t[0], &t[1], &t[2]], choose(3));
    let r = m.location_on_face(0, &p);
    located(&m, r, 0, [0, 1, 2], [&l[0], &l[1], &l[2]], &q);
}
fn find_one<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = V<N>>, V<N>: VectorOps<S, N>, Vector<S, 3>: VectorOps<S, 3> + Cross3<S> {
    let (t, l, q, _) = tri_point::<N>();
    let m = one_face([&t[0], &t[1], &t[2]], choose(3));
    let r = m.find_valid_face(0, &q);
    located(&m, r, 0, [0, 1, 2], [&l[0], &l[1], &l[2]], &q);
}
/// the point lies in the second face of a two-face strip, strictly off the first
fn find_second<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = V<N>>, V<N>: VectorOps<S, N>, Vector<S, 3>: VectorOps<S, 3> + Cross3<S> {
    let (t, l, q, [e, f]) = tri_point::<N>();
    // fourth corner beyond edge bc: d = b + c - a moved along bc
    let s = var("s");
    let d: Point<S, N> = Point { coords: std::array::from_fn(|i| &(&t[1][i] + &f[i]) + &(&s * &(&f[i] - &e[i]))) };
    need(nonneg(&l[0]));
    need(pos(&l[0]));
    // second face a', b, c with the point expressed over (d, c, b)
    let mut m = Mesh::<S, N>::new();
    for x in [&t[0], &t[1], &t[2], &d] { m.vertices.push(Vertex::new(x.clone())); }
    m.add_triangle(0, 1, 2);
    m.add_triangle(3, 2, 1);
    let k = choose(3);
    for _ in 0..k { m.faces[1].half_edge = m.half_edges[m.faces[1].half_edge].next; }
    let (u, w) = (diff(&t[1], &d), diff(&t[2], &d));
    let q2 = comb(&d, &l[1], &u, &l[2], &w);
    let _ = q;
    let r = m.find_valid_face(0, &q2);
    located(&m, r, 1, [3, 1, 2], [&l[0], &l[1], &l[2]], &q2);
}
fn coords_on_face<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = V<N>>, V<N>: VectorOps<S, N> {
    let (t, l, q, _) = tri_point::<N>();
    let m = one_face([&t[0], &t[1], &t[2]], choose(3));
    match m.barycentric_coords_on_face(0, &q) {
        None => ensure("a point of the face has coordinates", ff()),
        Some(b) => {
            let bs = [&b.0, &b.1, &b.2];
            for (k, v) in m_face(&m, 0).iter().enumerate() {
                ensure("the coordinate of each corner", eq(bs[k], &l[*v]));
            }
        }
    }
}
/// coordinates handed over directly: zero pattern to edge and vertex
fn zero_pattern() {
    let m = one_face::<2>([&pt("a"), &pt("b"), &pt("c")], choose(3));
    let (x, y) = (varm("x", NN), varm("y", NN));
    let z = &(&num(1) - &x) - &y;
    need(nonneg(&z));
    let l = [x, y, z];
    let fv = m_face(&m, 0);
    let q = Point::<S, 2> { coords: std::array::from_fn(|i| { let p = |k: usize| m.vertices[fv[k]].position[i].clone(); &(&(&l[0] * &p(0)) + &(&l[1] * &p(1))) + &(&l[2] * &p(2)) }) };
    let zs = l.iter().map(|v| zero(v)).collect::<Vec<_>>();
    match m.edge_and_u_from_bary_zero(0, &l[0], &l[1], &l[2]) {
        None => ensure("no edge only without a zero coordinate", not(or(zs.clone()))),
        Some((he, u)) => {
            ensure("edge only with a zero coordinate", or(zs.clone()));
            ensure("an edge of the face", bool_(m.half_edges[he].face == Some(0)));
            ensure("the point on the edge", eqp(&q, &lerp(&m.vertices[tail(&m, he)].position, &m.vertices[head(&m, he)].position, &u)));
        }
    }
    let two = or(vec![and(vec![zs[0].clone(), zs[1].clone()]), and(vec![zs[1].clone(), zs[2].clone()]), and(vec![zs[2].clone(), zs[0].clone()])]);
    match m.vertex_from_bary_zero(0, &l[0], &l[1], &l[2]) {
        None => ensure("no vertex only without two zero coordinates", not(two)),
        Some(v) => {
            ensure("vertex only with two zero coordinates", two);
            ensure("the vertex", bool_(v < 3));
            let k = fv.iter().position(|x| *x == v).unwrap();
            ensure("the vertex with coordinate one", eq(&l[k], &num(1)));
        }
    }
}
fn on_edge<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = V<N>>, V<N>: VectorOps<S, N> {
    let a = pt::<N>("a");
    let b = off(&a, "e");
    let c = pt::<N>("c");
    let m = one_face([&a, &b, &c], 0);
    let he = m.half_edge_between(0, 1);
    ensure("the half-edge exists", bool_(he.is_some()));
    let he = he.unwrap();
    ensure("its ends", bool_(m.source(he) == 0 && m.target(he) == 1));
    let seg = m.segment_from_half_edge(he);
    ensure("its segment", and(vec![eqp(&seg.a, &a), eqp(&seg.b, &b)]));
    let e = diff(&b, &a);
    need(not(and(e.iter().map(|x| zero(x)).collect())));
    let u = var("u");
    let q = plus(&a, &std::array::from_fn(|i| &u * &e[i]));
    match m.point_on_half_edge(he, &q) {
        None => ensure("no parameter only outside the edge", or(vec![neg(&u), lt(&num(1), &u)])),
        Some(r) => {
            ensure("parameter only on the edge", and(vec![nonneg(&u), le(&u, &num(1))]));
            ensure("the parameter", eq(&r, &u));
        }
    }
}
fn off_edge<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = V<N>>, V<N>: VectorOps<S, N> {
    let a = pt::<N>("a");
    let (b, q) = (off(&a, "e"), off(&a, "q"));
    let c = pt::<N>("c");
    let m = one_face([&a, &b, &c], 0);
    let he = m.half_edge_between(0, 1).unwrap();
    need(not(parallel(&diff(&b, &a), &diff(&q, &a))));
    ensure("a point off the line is not on the edge", bool_(m.point_on_half_edge(he, &q).is_none()));
}
fn some_edge<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = V<N>>, V<N>: VectorOps<S, N> {
    let (t, l, q, _) = tri_point::<N>();
    let m = one_face([&t[0], &t[1], &t[2]], choose(3));
    match m.point_is_on_some_half_edge(0, &q) {
        None => ensure("interior point", and(l.iter().map(|x| pos(x)).collect())),
        Some((he, u)) => {
            ensure("an edge of the face", bool_(m.half_edges[he].face == Some(0)));
            ensure("parameter reproduces the point", eqp(&q, &lerp(&m.vertices[tail(&m, he)].position, &m.vertices[head(&m, he)].position, &u)));
        }
    }
}
fn ray(geodesic: bool, k: usize) {
    let a = pt::<3>("a");
    let (b, c) = (off(&a, "e"), off(&a, "f"));
    let (e, f) = (diff(&b, &a), diff(&c, &a));
    need(nondegenerate(&e, &f));
    let t = [&a, &b, &c];
    let m = one_face(t, choose(3));
    let (i1, i2) = ((k + 1) % 3, (k + 2) % 3);
    let (u, w) = (diff(t[i1], t[k]), diff(t[i2], t[k]));
    let n = cross_(&e, &f);
    let (al, be, ga) = (var("al"), var("be"), var("ga"));
    need(not(and(vec![zero(&al), zero(&be)])));
    // outside the wedge nothing is promised along the two edge lines behind the vertex
    need(not(and(vec![zero(&al), neg(&be)])));
    need(not(and(vec![neg(&al), zero(&be)])));
    let d = Vector(Point { coords: std::array::from_fn(|i| &(&(&al * &u[i]) + &(&be * &w[i])) + &(&ga * &n[i])) });
    let r = if geodesic { m.cast_ray_from_vertex_in_triangle_3(0, k, &d) } else { m.cast_ray_from_vertex_in_triangle(0, k, &d) };
    match r {
        None => ensure("nothing only when the direction leaves the face", or(vec![neg(&al), neg(&be)])),
        Some(VertexRayResult::CollinearWithEdge(he)) => {
            let (s, t) = (tail(&m, he), head(&m, he));
            ensure("along an edge of the face starting here", bool_(s == k && (t == i1 || t == i2)));
            ensure("the direction follows that edge", if t == i1 { and(vec![pos(&al), zero(&be)]) } else { and(vec![zero(&al), pos(&be)]) });
        }
        Some(VertexRayResult::EdgeIntersection { half_edge, distance, edge_parameter }) => {
            ensure("only inside the wedge", and(vec![pos(&al), pos(&be)]));
            ensure("through the opposite edge", bool_(m.half_edges[half_edge].face == Some(0) && tail(&m, half_edge) == i1 && head(&m, half_edge) == i2));
            ensure("the distance along the ray", eq(&(&distance * &(&al + &be)), &num(1)));
            ensure("the parameter on the edge", eq(&(&edge_parameter * &(&al + &be)), &be));
        }
    }
}
fn measures<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = V<N>>, V<N>: VectorOps<S, N> {
    let a = pt::<N>("a");
    let (b, c) = (off(&a, "e"), off(&a, "f"));
    let (e, f) = (diff(&b, &a), diff(&c, &a));
    let m = one_face([&a, &b, &c], choose(3));
    let g = m.face_centroid(0);
    ensure("centroid", and((0..N).map(|i| eq(&(&g[i] * &num(3)), &(&(&a[i] + &b[i]) + &c[i]))).collect()));
    let s = m.face_area(0);
    if N == 2 {
        let d = det2(&[e[0].clone(), e[1].clone()], &[f[0].clone(), f[1].clone()]);
        ensure("area is half the determinant", and(vec![nonneg(&s), or(vec![eq(&(&s * &num(2)), &d), eq(&(&s * &num(2)), &(&num(0) - &d))])]));
    } else {
        let n = cross_(&std::array::from_fn(|i| e[i].clone()), &std::array::from_fn(|i| f[i].clone()));
        ensure("squared area is a quarter of the squared normal", eq(&(&s * &num(4)), &dot_(&n, &n)));
        let fnrm = m.face_normal(0);
        ensure("face normal", and((0..3).map(|i| eq(&fnrm[i], &n[i])).collect()));
    }
}
fn face_plane() {
    let a = pt::<3>("a");
    let (b, c) = (off(&a, "e"), off(&a, "f"));
    let (e, f) = (diff(&b, &a), diff(&c, &a));
    need(nondegenerate(&e, &f));
    let m = one_face([&a, &b, &c], choose(3));
    let pl = m.plane_from_face(0);
    let n = cross_(&e, &f);
    for q in [&a, &b, &c] {
        ensure("the plane contains the corners", zero(&(&dot_(&pl.normal.0.coords, &q.coords) + &pl.d)));
    }
    ensure("the plane faces along the face normal", pos(&dot_(&pl.normal.0.coords, &n)));
}

pub fn list() -> Vec<Decl> {
    vec![
        proof("barycentric coordinates 2D", &["barycentric_coords"], bary::<2>),
        proof("barycentric coordinates 3D", &["barycentric_coords"], bary::<3>),
        proof("zero pattern to edge and vertex", &["edge_and_u_from_bary_zero", "vertex_from_bary_zero", "face_edges", "face_vertices"], zero_pattern),
        proof("location on a face 2D", &["location_on_face", "edge_and_u_from_bary_zero", "vertex_from_bary_zero"], location::<2>),
        proof("location on a face 3D", &["location_on_face", "edge_and_u_from_bary_zero", "vertex_from_bary_zero"], location::<3>),
        proof("finding the face 2D", &["find_valid_face"], find_one::<2>).within("one-face mesh"),
        proof("finding the face 3D", &["find_valid_face"], find_one::<3>).within("one-face mesh"),
        proof("finding the neighbouring face 2D", &["find_valid_face"], find_second::<2>).within("two-face mesh"),
        proof("finding the neighbouring face 3D", &["find_valid_face"], find_second::<3>).within("two-face mesh"),
        proof("coordinates on a face 2D", &["barycentric_coords_on_face"], coords_on_face::<2>).approx(&[0.0, 1.0, -1.0]),
        proof("coordinates on a face 3D", &["barycentric_coords_on_face"], coords_on_face::<3>).approx(&[0.0, 1.0, -1.0]),
        proof("parameter on a half-edge 2D", &["point_on_half_edge", "segment_from_half_edge", "source", "target"], on_edge::<2>),
        proof("parameter on a half-edge 3D", &["point_on_half_edge", "segment_from_half_edge", "source", "target"], on_edge::<3>),
        proof("off the half-edge 2D", &["point_on_half_edge"], off_edge::<2>),
        proof("off the half-edge 3D", &["point_on_half_edge"], off_edge::<3>),
        proof("edge of a face under a point 2D", &["point_is_on_some_half_edge"], some_edge::<2>),
        bounded("edge of a face under a point 3D", &["point_is_on_some_half_edge"], some_edge::<3>),
        proof("ray from corner 0", &["cast_ray_from_vertex_in_triangle"], || ray(false, 0)),
        proof("ray from corner 1", &["cast_ray_from_vertex_in_triangle"], || ray(false, 1)),
        proof("ray from corner 2", &["cast_ray_from_vertex_in_triangle"], || ray(false, 2)),
        proof("geodesic ray from corner 0", &["cast_ray_from_vertex_in_triangle_3"], || ray(true, 0)),
        proof("geodesic ray from corner 1", &["cast_ray_from_vertex_in_triangle_3"], || ray(true, 1)),
        proof("geodesic ray from corner 2", &["cast_ray_from_vertex_in_triangle_3"], || ray(true, 2)),
        proof("centroid and area 2D", &["face_centroid", "face_area", "face_area_2"], measures::<2>),
        proof("centroid, area and normal 3D", &["face_centroid", "face_area", "face_area_3", "face_normal"], measures::<3>),
        proof("plane of a face", &["plane_from_face"], face_plane),
    ]
}
