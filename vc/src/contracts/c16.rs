// C16: booleans of solids.
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::boolean::BooleanOp;
use cgar::numeric::lazy_exact::LazyExact;
use num_traits::ToPrimitive as _;
use std::collections::BTreeSet;
type V = [f64; 3];
type Solid = Mesh<LazyExact, 3>;
fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn cross3(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn dot3(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn det4(a: V, b: V, c: V, d: V) -> f64 { dot3(sub(b, a), cross3(sub(c, a), sub(d, a))) }
fn volume(t: &[[V; 3]]) -> f64 { t.iter().map(|t| dot3(t[0], cross3(t[1], t[2])) / 6.0).sum() }
/// part of a polygon behind the plane of a triangle
fn clip(p: &[V], t: &[V; 3]) -> Vec<V> {
    let n = cross3(sub(t[1], t[0]), sub(t[2], t[0]));
    let mut r = vec![];
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        let (x, y) = (dot3(n, sub(a, t[0])), dot3(n, sub(b, t[0])));
        if x <= 0.0 { r.push(a); }
        if (x < 0.0 && y > 0.0) || (x > 0.0 && y < 0.0) { let s = x / (x - y); r.push([0, 1, 2].map(|k| a[k] + s * (b[k] - a[k]))); }
    }
    r
}
/// volume of the intersection of two convex solids
fn common(a: &[[V; 3]], b: &[[V; 3]]) -> f64 {
    let mut s = 0.0;
    for (x, y) in [(a, b), (b, a)] { for t in x {
        let mut p = t.to_vec();
        for u in y { p = clip(&p, u); if p.len() < 3 { break; } }
        for i in 2..p.len().max(2) { s += dot3(p[0], cross3(p[i - 1], p[i])) / 6.0; }
    } }
    s
}
/// the tetrahedra from a point that sees all faces
fn parts(t: &[[V; 3]], o: V) -> Vec<[[V; 3]; 4]> { t.iter().map(|t| [*t, [t[0], o, t[1]], [t[1], o, t[2]], [t[2], o, t[0]]]).collect() }
fn tetrahedron() -> (Vec<[V; 3]>, V) {
    let p: Vec<V> = (0..4).map(|_| [0, 1, 2].map(|_| choose(21) as f64)).collect();
    let d = det4(p[0], p[1], p[2], p[3]);
    need(bool_(d.abs() > 400.0));
    let f = if d > 0.0 { [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]] } else { [[0, 1, 2], [0, 3, 1], [1, 3, 2], [0, 2, 3]] };
    (f.iter().map(|t| t.map(|i: usize| p[i])).collect(), [0, 1, 2].map(|k| (p[0][k] + p[1][k] + p[2][k] + p[3][k]) / 4.0))
}
fn skew_box() -> (Vec<[V; 3]>, V) {
    let o: V = [0, 1, 2].map(|_| choose(16) as f64);
    let e: V = [0, 1, 2].map(|k| 3.0 + choose(10) as f64 + [0.25, 0.5, 0.125][k]);
    let s: V = [0, 1, 2].map(|_| choose(7) as f64 * 0.375 - 1.0);
    let p: Vec<V> = (0..8).map(|i: usize| { let b = [i & 1, i >> 1 & 1, i >> 2].map(|x| x as f64); [o[0] + e[0] * b[0] + s[0] * b[1], o[1] + e[1] * b[1] + s[1] * b[2], o[2] + e[2] * b[2] + s[2] * b[0]] }).collect();
    let q = [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]];
    (q.iter().flat_map(|q| [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]).map(|t| t.map(|i: usize| p[i])).collect(), [0, 1, 2].map(|k| (p[0][k] + p[7][k]) / 2.0))
}
/// a tetrahedron whose faces are pushed in or pulled out
fn star() -> (Vec<[V; 3]>, V) {
    let (t, o) = tetrahedron();
    let mut r = vec![];
    for f in t {
        let s = [0.4, 0.7, 1.3, 1.9][choose(4)];
        let m: V = [0, 1, 2].map(|k| { let c = (f[0][k] + f[1][k] + f[2][k]) / 3.0; ((o[k] + s * (c - o[k])) * 1024.0).round() / 1024.0 });
        for i in 0..3 { r.push([f[i], f[(i + 1) % 3], m]); }
    }
    (r, o)
}
fn solid() -> (Vec<[V; 3]>, V) {
    let (mut t, mut o) = match choose(3) { 0 => tetrahedron(), 1 => skew_box(), _ => star() };
    // some much smaller
    if choose(4) == 0 { let at: V = [0, 1, 2].map(|_| 4.0 + choose(10) as f64 + 0.0625); let f = |p: V| [0, 1, 2].map(|k| at[k] + p[k] * 0.125); for t in &mut t { *t = t.map(f); } o = f(o); }
    need(bool_(t.iter().all(|t| det4(o, t[0], t[1], t[2]) > 1e-3)));
    (t, o)
}
/// no corner near the plane of a face of the other and no two edges near each other's planes
fn general(a: &[[V; 3]], b: &[[V; 3]]) -> bool {
    let side = |a: &[[V; 3]], b: &[[V; 3]]| a.iter().flatten().all(|p| b.iter().all(|t| { let n = cross3(sub(t[1], t[0]), sub(t[2], t[0])); dot3(n, sub(*p, t[0])).abs() > 0.02 * dot3(n, n).sqrt() }));
    let apart = |p: V, q: V, r: V, u: V| { let n = cross3(sub(q, p), sub(u, r)); dot3(n, sub(r, p)).abs() > 0.02 * dot3(n, n).sqrt() };
    side(a, b) && side(b, a) && a.iter().all(|s| b.iter().all(|t| (0..3).all(|i| (0..3).all(|j| apart(s[i], s[(i + 1) % 3], t[j], t[(j + 1) % 3])))))
}
fn mesh(t: &[[V; 3]]) -> Solid {
    let mut m = Solid::new();
    let mut k: Vec<V> = vec![];
    for t in t {
        let v = t.map(|p| k.iter().position(|x| *x == p).unwrap_or_else(|| { k.push(p); m.add_vertex(Point { coords: p.map(LazyExact::from) }) }));
        m.add_triangle(v[0], v[1], v[2]);
    }
    m
}
fn boolean(op: usize) {
    let ((a, ao), (b, bo)) = (solid(), solid());
    need(bool_(general(&a, &b)));
    let both: f64 = parts(&a, ao).iter().map(|x| parts(&b, bo).iter().map(|y| common(x, y)).sum::<f64>()).sum();
    let (va, vb) = (volume(&a), volume(&b));
    let (op, want) = match op { 0 => (BooleanOp::Union, va + vb - both), 1 => (BooleanOp::Intersection, both), _ => (BooleanOp::Difference, va - both) };
    let (mut x, mut y) = (mesh(&a), mesh(&b));
    let m = x.corefine_and_boolean(&mut y, op);
    let mut dirs = BTreeSet::new();
    let mut ts: Vec<[V; 3]> = vec![];
    for f in 0..m.faces.len() {
        if m.faces[f].removed { continue; }
        let v = m.face_vertices(f);
        ts.push([0, 1, 2].map(|i| [0, 1, 2].map(|k| m.vertices[v[i]].position[k].to_f64().unwrap_or(f64::NAN))));
        for i in 0..3 { ensure("consistently oriented", bool_(dirs.insert((v[i], v[(i + 1) % 3])))); }
    }
    ensure("closed", bool_(dirs.iter().all(|e| dirs.contains(&(e.1, e.0)))));
    let got = volume(&ts);
    ensure("the volume of the set operation", bool_((got - want).abs() < 1e-6 * (1.0 + va + vb)));
}
fn union() { boolean(0) }
fn intersection() { boolean(1) }
fn difference() { boolean(2) }
const F: &[&str] = &["Mesh::corefine_and_boolean", "Mesh::classify_faces_3", "Mesh::get_seed_face_3", "Mesh::get_mesh_intersections_3", "remove_duplicate_and_invalid_segments", "allocate_vertices_for_splits_no_topology", "build_face_pslgs_3", "rewrite_faces_from_cdt_batch", "Mesh::build_links", "add_split_or_chain_uv"];
pub fn list() -> Vec<Decl> { vec![bounded("union", F, union), bounded("intersection", F, intersection), bounded("difference", F, difference)] }
