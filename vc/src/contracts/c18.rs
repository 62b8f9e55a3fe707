// C18: rays against faces, points against solids.
include!("patch.rs");
fn choose_off(_: usize) -> usize { 0 }
type Tree<const N: usize> = AabbTree<S, N, Point<S, N>, usize>;
fn vec3(c: &[S; 3]) -> Vector<S, 3> { Vector::<S, 3>::from_vals(c.clone()) }
/// a face tree that offers the listed faces to every ray from p
fn offers(p: &Point<S, 3>, fs: &[usize]) -> Tree<3> {
    whole_line();
    let leaf = |f: usize| AabbTree::Leaf { aabb: Aabb::new(p.clone(), p.clone()), data: std::sync::Arc::new(f), valid: true, amin: [f64::NEG_INFINITY; 3], amax: [f64::INFINITY; 3] };
    let mut t = leaf(fs[0]);
    for (k, f) in fs[1..].iter().enumerate() {
        t = AabbTree::Node { aabb: Aabb::new(p.clone(), p.clone()), left: Box::new(t), right: Box::new(leaf(*f)), valid_count: k + 2, total_count: k + 2, amin: [f64::NEG_INFINITY; 3], amax: [f64::INFINITY; 3] };
    }
    t
}
/// what is hit at barycentric coordinates l (not negative) of the corners v
fn at_place(m: &M<3>, hit: &IntersectionHit<S>, f: usize, v: [usize; 3], l: [&S; 3]) -> F {
    match hit {
        IntersectionHit::Face(g, (a, b, c)) => and(vec![bool_(*g == f), pos(l[0]), pos(l[1]), pos(l[2]), eq(a, l[0]), eq(b, l[1]), eq(c, l[2])]),
        IntersectionHit::Vertex(x) => match (0..3).find(|i| v[*i] == *x) { Some(i) => eq(l[i], &num(1)), None => ff() },
        IntersectionHit::Edge(x, y, u) => {
            let w = |z: &usize| (0..3).find(|i| v[*i] == *z);
            match (w(x), w(y)) {
                (Some(i), Some(j)) if i != j && m.edge_map.contains_key(&(*x, *y)) => and(vec![zero(l[3 - i - j]), pos(l[i]), pos(l[j]), eq(u, l[j])]),
                _ => ff(),
            }
        }
    }
}
/// one face, any ray; the tolerance is zero or the default one
fn one_face(given: bool, side: usize) {
    let (e, g, d) = (pt::<3>("e").coords, pt::<3>("g").coords, pt::<3>("d").coords);
    let o = pt::<3>("o");
    let (u, v, t) = (var("u"), var("v"), var("t"));
    let det = dot_(&e, &cross_(&d, &g));
    if side == 0 { need(nonzero(&det)); factor(&det); }
    let p = if side == 0 { Point { coords: std::array::from_fn::<S, 3, _>(|i| &(&(&o[i] + &(&u * &e[i])) + &(&v * &g[i])) - &(&t * &d[i])) } } else { pt::<3>("p") };
    let mut m = M::<3>::fresh();
    for q in [o.clone(), plus(&o, &e), plus(&o, &g)] { m.vertices.push(cgar::mesh::vertex::Vertex::new(q)); }
    let f = m.add_triangle(0, 1, 2);
    let vs: [usize; 3] = { let w = m.face_vertices(f); std::array::from_fn(|i| w[i]) };
    let r = m.cast_ray_3(&p, &vec3(&d), &offers(&p, &[f]), &if given { Some(num(0)) } else { None });
    if side != 0 { need(zero(&det)); ensure("a face parallel to the ray is not hit", bool_(matches!(r, IntersectionResult::Miss))); return; }
    let w = &num(1) - &(&u + &v);
    // corners 0 1 2 of the construction are found at these places of the face
    let l: [&S; 3] = std::array::from_fn(|i| [&w, &u, &v][vs[i]]);
    let on = and(vec![nonneg(&u), nonneg(&v), nonneg(&w), nonneg(&t)]);
    match &r {
        IntersectionResult::Miss => ensure("missed only if the ray does not meet the face", not(on)),
        IntersectionResult::Hit(h, s) => {
            ensure("hit only if the ray meets the face", on);
            ensure("distance parameter", eq(s, &t));
            if given { ensure("place of the hit", at_place(&m, h, f, vs, l)); }
        }
    }
}
fn one_exact() { one_face(true, 0) }
fn one_default() { one_face(false, 0) }
fn one_parallel() { one_face(true, 1) }
/// several faces across one ray: the nearest one in front counts
fn nearest(n: usize) {
    let d = ptm::<3>("d", 7).coords;
    let (x, y, z0) = (var("x"), var("y"), var("z"));
    let p = Point { coords: [x, y, z0] };
    need(nonzero(&d[2]));
    let mut m = M::<3>::fresh();
    let mut ts = vec![];
    for k in 0..n {
        // a face around the place where the ray is after t
        let t = var(&format!("t{}", k));
        let c: [S; 3] = std::array::from_fn(|i| &p[i] + &(&t * &d[i]));
        for (a, b) in [(-2, -1), (2, -1), (0, 3)] { m.vertices.push(cgar::mesh::vertex::Vertex::new(Point { coords: [&c[0] + &num(a), &c[1] + &num(b), c[2].clone()] })); }
        ts.push(t);
    }
    let fs: Vec<usize> = (0..n).map(|k| m.add_triangle(3 * k, 3 * k + 1, 3 * k + 2)).collect();
    match m.cast_ray_3(&p, &vec3(&d), &offers(&p, &fs), &Some(num(0))) {
        IntersectionResult::Miss => ensure("nothing is in front", and(ts.iter().map(neg).collect())),
        IntersectionResult::Hit(IntersectionHit::Face(f, _), s) => {
            let k = fs.iter().position(|g| *g == f).unwrap();
            ensure("distance of the reported face", and(vec![eq(&s, &ts[k]), nonneg(&s)]));
            for t in &ts { ensure("no nearer face", or(vec![neg(t), le(&s, t)])); }
        }
        _ => ensure("the faces are hit inside", ff()),
    }
}
fn two_faces() { nearest(2) }
fn three_faces() { nearest(3) }
/// a point and a tetrahedron or an octahedron
fn convex(k: usize) {
    let (vs, ts): (Vec<[i64; 3]>, Vec<[usize; 3]>) = if k == 0 {
        (vec![[0, 0, 0], [5, 1, 0], [1, 7, 2], [2, 1, 6]], vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]])
    } else {
        (vec![[4, 0, 0], [0, 4, 0], [0, 0, 4], [-4, 0, 0], [0, -4, 0], [0, 0, -4]], vec![[0, 1, 2], [1, 3, 2], [3, 4, 2], [4, 0, 2], [1, 0, 5], [3, 1, 5], [4, 3, 5], [0, 4, 5]])
    };
    let mut m = M::<3>::fresh();
    for v in &vs { m.vertices.push(cgar::mesh::vertex::Vertex::new(Point { coords: v.map(num) })); }
    for t in &ts { m.add_triangle(t[0], t[1], t[2]); }
    let p = pt::<3>("p");
    let r = m.point_in_mesh_3(&offers(&p, &(0..ts.len()).collect::<Vec<_>>()), &p);
    let h: Vec<S> = ts.iter().map(|t| { let q = t.map(|i| Point { coords: vs[i].map(num) }); det3(&diff(&q[1], &q[0]), &diff(&q[2], &q[0]), &diff(&q[0], &p)) }).collect();
    let inside = and(h.iter().map(pos).collect());
    let outside = or(h.iter().map(neg).collect());
    match r {
        PointInMeshResult::Inside => ensure("inside", inside),
        PointInMeshResult::Outside => ensure("outside", outside),
        PointInMeshResult::OnSurface => ensure("on the surface", and(vec![not(inside), not(outside)])),
    }
}
fn tetrahedron() { convex(0) }
fn octahedron() { convex(1) }
/// a point and a triangle in the plane
fn triangle_2() {
    let o = pt::<2>("o");
    let (e, g) = (pt::<2>("e").coords, pt::<2>("g").coords);
    let (u, v) = (var("u"), var("v"));
    let det = det2(&e, &g);
    need(nonzero(&det));
    factor(&det);
    let p = Point { coords: std::array::from_fn::<S, 2, _>(|i| &(&o[i] + &(&u * &e[i])) + &(&v * &g[i])) };
    let mut m = M::<2>::fresh();
    for q in [o.clone(), plus(&o, &e), plus(&o, &g)] { m.vertices.push(cgar::mesh::vertex::Vertex::new(q)); }
    m.add_triangle(0, 1, 2);
    let w = &num(1) - &(&u + &v);
    if m.point_in_mesh_2(&p) { ensure("inside or on the border", and(vec![nonneg(&u), nonneg(&v), nonneg(&w)])); }
    else { ensure("outside or on the border", or(vec![nonpos(&u), nonpos(&v), nonpos(&w)])); }
}
/// a skewed copy of the grid: A x + b
fn skew3() -> [[i64; 3]; 3] {
    match choose(4) {
        0 => [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
        1 => [[2, 1, 0], [0, 3, 1], [1, 0, 2]],
        2 => [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
        _ => { let mut a = [[0; 3]; 3]; for r in 0..3 { for c in 0..3 { a[r][c] = choose(7) as i64 - 3; } }
            let d = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
            need(bool_(d > 0)); a }
    }
}
fn apply(a: &[[i64; 3]; 3], x: &[S; 3]) -> Point<S, 3> { Point { coords: std::array::from_fn(|r| &(&(&num(a[r][0]) * &x[0]) + &(&num(a[r][1]) * &x[1])) + &(&num(a[r][2]) * &x[2])) } }
type Cells = BTreeSet<[i64; 3]>;
/// boundary of a set of grid cells, turned outward; none if it is no surface
fn skin(cells: &Cells) -> Option<(Vec<[i64; 3]>, Vec<[usize; 3]>)> {
    let mut id: BTreeMap<[i64; 3], usize> = BTreeMap::new();
    let mut pts = vec![];
    let mut ts = vec![];
    for c in cells { for ax in 0..3 { for s in [0i64, 1] {
        let mut n = *c; n[ax] += 2 * s - 1;
        if cells.contains(&n) { continue; }
        let (b, g) = ((ax + 1) % 3, (ax + 2) % 3);
        let q: Vec<usize> = [(0, 0), (1, 0), (1, 1), (0, 1)].iter().map(|(i, j)| { let mut x = *c; x[ax] += s; x[b] += i; x[g] += j; *id.entry(x).or_insert_with(|| { pts.push(x); pts.len() - 1 }) }).collect();
        let q = if s == 1 { [q[0], q[1], q[2], q[3]] } else { [q[0], q[3], q[2], q[1]] };
        if (c[0] + c[1] + c[2] + s) % 2 == 0 { ts.push([q[0], q[1], q[2]]); ts.push([q[0], q[2], q[3]]); } else { ts.push([q[0], q[1], q[3]]); ts.push([q[1], q[2], q[3]]); }
    } } }
    let mut dirs = BTreeSet::new();
    for t in &ts { for i in 0..3 { if !dirs.insert((t[i], t[(i + 1) % 3])) { return None; } } }
    Some((pts, ts))
}
fn solid() -> Cells {
    let mut c = Cells::new();
    let k = choose(5);
    for x in 0..3 { for y in 0..3 { for z in 0..3 {
        let all = [x, y, z];
        let mid = all.iter().filter(|v| **v == 1).count();
        let keep = match k {
            0 => all == [1, 1, 1],                 // a box
            1 => z == 1 && mid < 3,                // a ring
            2 => !(x >= 1 && y >= 1),              // an angle
            3 => mid < 3,                          // a box around a hollow
            _ => choose(3) > 0,
        };
        if keep { c.insert(all); }
    } } }
    c
}
/// where a point is relative to a set of cells
fn where_is(cells: &Cells, x: &[(i64, i64); 3]) -> PointInMeshResult {
    // coordinates n/d with d > 0: the cells whose closure contains the point
    let near: Vec<Vec<i64>> = x.iter().map(|(n, d)| { let f = n.div_euclid(*d); if n % d == 0 { vec![f - 1, f] } else { vec![f] } }).collect();
    let mut hit = (0, 0);
    for a in &near[0] { for b in &near[1] { for c in &near[2] { if cells.contains(&[*a, *b, *c]) { hit.0 += 1 } else { hit.1 += 1 } } } }
    if hit.1 == 0 { PointInMeshResult::Inside } else if hit.0 == 0 { PointInMeshResult::Outside } else { PointInMeshResult::OnSurface }
}
fn place() -> [(i64, i64); 3] {
    let d = 1 + choose(6) as i64;
    std::array::from_fn(|_| (choose((5 * d + 1) as usize) as i64 - d, d))
}
fn solid_mesh() -> (Cells, [[i64; 3]; 3], M<3>) {
    let cells = solid();
    let Some((pts, ts)) = skin(&cells) else { need(ff()); unreachable!() };
    need(bool_(!ts.is_empty()));
    let a = skew3();
    let mut m = M::<3>::fresh();
    for p in &pts { m.vertices.push(cgar::mesh::vertex::Vertex::new(apply(&a, &p.map(num)))); }
    for t in &ts { m.add_triangle(t[0], t[1], t[2]); }
    (cells, a, m)
}
fn solids() {
    let (cells, a, m) = solid_mesh();
    let tree = m.build_face_tree();
    for _ in 0..4 {
        let x = place();
        let p = apply(&a, &x.map(|(n, d)| ratio(n, d)));
        let r = m.point_in_mesh_3(&tree, &p);
        ensure("inside, outside or on the surface of the solid", bool_(r == where_is(&cells, &x)));
    }
}
/// rays against solids: the nearest of all faces
fn rays() {
    let (_, a, m) = solid_mesh();
    let tree = m.build_face_tree();
    let x = place();
    let p = apply(&a, &x.map(|(n, d)| ratio(n, d)));
    let d: [S; 3] = std::array::from_fn(|_| num(choose(9) as i64 - 4));
    need(or(d.iter().map(nonzero).collect()));
    let mut best: Option<S> = None;
    for f in 0..m.faces.len() {
        let w = m.face_vertices(f);
        let q: [Point<S, 3>; 3] = std::array::from_fn(|i| m.vertices[w[i]].position.clone());
        let (e, g) = (diff(&q[1], &q[0]), diff(&q[2], &q[0]));
        let n = cross_(&e, &g);
        let k = dot_(&n, &d);
        if holds(&zero(&k)) { continue; }
        let t = &dot_(&n, &diff(&q[0], &p)) / &k;
        if holds(&neg(&t)) { continue; }
        let z = Point { coords: std::array::from_fn::<S, 3, _>(|i| &p[i] + &(&t * &d[i])) };
        let side = |i: usize| dot_(&n, &cross_(&diff(&q[(i + 1) % 3], &q[i]), &diff(&z, &q[i])));
        if (0..3).any(|i| holds(&neg(&side(i)))) { continue; }
        if best.as_ref().map_or(true, |b| holds(&lt(&t, b))) { best = Some(t); }
    }
    match (m.cast_ray_3(&p, &vec3(&d), &tree, &Some(num(0))), best) {
        (IntersectionResult::Miss, b) => ensure("missed only if no face is met", bool_(b.is_none())),
        (IntersectionResult::Hit(h, s), Some(t)) => {
            ensure("distance of the nearest face", eq(&s, &t));
            let z = Point { coords: std::array::from_fn::<S, 3, _>(|i| &p[i] + &(&t * &d[i])) };
            let at = |v: usize| m.vertices[v].position.clone();
            let q = match h {
                IntersectionHit::Vertex(v) => at(v),
                IntersectionHit::Edge(v, w, u) => lerp(&at(v), &at(w), &u),
                IntersectionHit::Face(f, (a, b, c)) => { let w = m.face_vertices(f); Point { coords: std::array::from_fn(|i| &(&(&a * &at(w[0])[i]) + &(&b * &at(w[1])[i])) + &(&c * &at(w[2])[i])) } }
            };
            ensure("place of the hit", eqp(&q, &z));
        }
        _ => ensure("hit only if a face is met", ff()),
    }
}
/// planar regions of grid cells, with holes
fn regions() {
    let (w, h) = (2 + choose(3) as i64, 2 + choose(3) as i64);
    let cells: BTreeSet<[i64; 2]> = (0..w).flat_map(|x| (0..h).map(move |y| [x, y])).filter(|_| choose(4) > 0).collect();
    need(bool_(!cells.is_empty()));
    let a = [[[1, 0], [0, 1]], [[2, 1], [0, 1]], [[1, -1], [1, 2]], [[0, -3], [1, 1]]][choose(4)];
    let to = |x: &[S; 2]| Point { coords: std::array::from_fn::<S, 2, _>(|r| &(&num(a[r][0]) * &x[0]) + &(&num(a[r][1]) * &x[1])) };
    let mut m = M::<2>::fresh();
    for x in 0..=w { for y in 0..=h { m.vertices.push(cgar::mesh::vertex::Vertex::new(to(&[num(x), num(y)]))); } }
    let at = |x: i64, y: i64| (x * (h + 1) + y) as usize;
    for [x, y] in &cells {
        let q = [at(*x, *y), at(x + 1, *y), at(x + 1, y + 1), at(*x, y + 1)];
        m.add_triangle(q[0], q[1], q[2]);
        m.add_triangle(q[0], q[2], q[3]);
    }
    for _ in 0..4 {
        let d = 1 + choose(4) as i64;
        let x: [i64; 2] = std::array::from_fn(|_| choose((6 * d + 1) as usize) as i64 - d);
        let near: Vec<Vec<i64>> = x.iter().map(|n| { let f = n.div_euclid(d); if n % d == 0 { vec![f - 1, f] } else { vec![f] } }).collect();
        let c: Vec<bool> = near[0].iter().flat_map(|a| near[1].iter().map(|b| cells.contains(&[*a, *b])).collect::<Vec<_>>()).collect();
        let r = m.point_in_mesh_2(&to(&x.map(|n| ratio(n, d))));
        if c.iter().all(|b| *b) { ensure("a point inside the region", bool_(r)); }
        if !c.iter().any(|b| *b) { ensure("a point outside the region", bool_(!r)); }
    }
}
pub fn list() -> Vec<Decl> {
    vec![
        proof("ray and face", &["Mesh::cast_ray_3", "ray_triangle_intersection", "Mesh::edge_and_u_from_bary_zero"], one_exact),
        proof("ray and face, default tolerance", &["Mesh::cast_ray_3", "ray_triangle_intersection"], one_default),
        proof("ray parallel to a face", &["Mesh::cast_ray_3", "ray_triangle_intersection"], one_parallel),
        proof("nearest of two faces", &["Mesh::cast_ray_3"], two_faces).within("two parallel faces"),
        proof("nearest of three faces", &["Mesh::cast_ray_3"], three_faces).within("three parallel faces"),
        proof("point and tetrahedron", &["Mesh::point_in_mesh_3"], tetrahedron).within("one tetrahedron, any point"),
        proof("point and octahedron", &["Mesh::point_in_mesh_3"], octahedron).within("one octahedron, any point"),
        proof("point and triangle in the plane", &["Mesh::point_in_mesh_2", "Mesh::cast_ray_2", "Mesh::get_boundary_half_edges"], triangle_2).within("one triangle, any point"),
        bounded("points and solids", &["Mesh::point_in_mesh_3"], solids),
        bounded("rays and solids", &["Mesh::cast_ray_3"], rays),
        bounded("points and planar regions", &["Mesh::point_in_mesh_2", "Mesh::cast_ray_2"], regions),
    ]
}
