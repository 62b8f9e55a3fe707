// C12: Delaunay triangulations and constraints.
use cgar::mesh_processing::batching::FaceJobUV;
use cgar::operations::triangulation::delaunay::Delaunay;
use std::collections::BTreeSet;
type P = [i64; 2];
fn turn(a: P, b: P, c: P) -> i64 { (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) }
/// d strictly inside the circle through a, b, c (counter-clockwise)
fn in_circle(a: P, b: P, c: P, d: P) -> bool {
    let f = |p: P| { let (x, y) = ((p[0] - d[0]) as i128, (p[1] - d[1]) as i128); (x, y, x * x + y * y) };
    let (a, b, c) = (f(a), f(b), f(c));
    a.0 * (b.1 * c.2 - b.2 * c.1) - a.1 * (b.0 * c.2 - b.2 * c.0) + a.2 * (b.0 * c.1 - b.1 * c.0) > 0
}
/// m in the open segment a b
fn between(a: P, b: P, m: P) -> bool { turn(a, b, m) == 0 && (m[0] - a[0]) * (m[0] - b[0]) + (m[1] - a[1]) * (m[1] - b[1]) < 0 }
fn cross(a: P, b: P, c: P, d: P) -> bool { turn(a, b, c).signum() * turn(a, b, d).signum() < 0 && turn(c, d, a).signum() * turn(c, d, b).signum() < 0 }
/// no angle strictly between 179 and 180 degrees
fn not_thin(p: &[P]) -> bool {
    for (i, a) in p.iter().enumerate() { for (j, b) in p.iter().enumerate() { for (k, c) in p.iter().enumerate() {
        if i == k || j == k || i >= j { continue; }
        let t = turn(*a, *b, *c).abs() as f64;
        let d = ((a[0] - c[0]) * (b[0] - c[0]) + (a[1] - c[1]) * (b[1] - c[1])) as f64;
        if t > 0.0 && d < 0.0 && t < -d * 0.01746 { return false; }
    } } }
    true
}
/// where the integer positions are put, and the unit
fn placement(k: usize) -> (P, S) { [([0, 0], num(1)), ([100, -50], num(1)), ([-900, 700], ratio(1, 64)), ([3, -999], num(1024))][k].clone() }
const PLACES: usize = 4;
fn points(p: &[P], at: &(P, S)) -> Vec<Point<S, 2>> { p.iter().map(|q| Point { coords: std::array::from_fn(|i| &num(q[i] + at.0[i]) * &at.1) }).collect() }
fn sound(p: &[P], given: &[Point<S, 2>], d: &Delaunay<S>, cons: Option<&[[usize; 2]]>) {
    ensure("the points are kept", bool_(d.points.len() == given.len()));
    for (a, b) in d.points.iter().zip(given) { ensure("the points are kept", eqp(a, b)); }
    let ts: Vec<[usize; 3]> = d.triangles.iter().map(|t| [t.0, t.1, t.2]).collect();
    let ok = ts.iter().all(|t| t.iter().all(|v| *v < p.len()));
    ensure("the corners are given points", bool_(ok));
    if !ok { return; }
    let mut dirs = BTreeSet::new();
    let mut area = 0;
    for t in &ts {
        let a = turn(p[t[0]], p[t[1]], p[t[2]]);
        ensure("counter-clockwise", bool_(a > 0));
        area += a;
        for i in 0..3 { ensure("triangles do not overlap along an edge", bool_(dirs.insert((t[i], t[(i + 1) % 3])))); }
        let empty = (0..p.len()).all(|v| t.contains(&v) || !(0..3).all(|i| turn(p[t[i]], p[t[(i + 1) % 3]], p[v]) >= 0));
        ensure("no point inside or on the side of a triangle", bool_(empty));
        if cons.is_none() { ensure("no point inside the circumcircle", bool_(p.iter().all(|v| !in_circle(p[t[0]], p[t[1]], p[t[2]], *v)))); }
    }
    let mut hull = 0;
    for i in 0..p.len() { for j in 0..p.len() {
        if i == j { continue; }
        let side = p.iter().all(|v| turn(p[i], p[j], *v) >= 0);
        if side && !p.iter().any(|v| between(p[i], p[j], *v)) {
            ensure("every side of the convex hull is there", bool_(dirs.contains(&(i, j)) && !dirs.contains(&(j, i))));
            hull += p[i][0] * p[j][1] - p[i][1] * p[j][0];
        }
        if dirs.contains(&(i, j)) && !side { ensure("inner edges have triangles on both sides", bool_(dirs.contains(&(j, i)))); }
    } }
    ensure("the areas add up to the area of the hull", bool_(area == hull));
    for v in 0..p.len() { ensure("every point is a corner", bool_(ts.iter().any(|t| t.contains(&v)))); }
    for c in cons.unwrap_or(&[]) {
        let mut on: Vec<usize> = (0..p.len()).filter(|k| c.contains(k) || between(p[c[0]], p[c[1]], p[*k])).collect();
        on.sort_by_key(|k| p[*k]);
        for w in on.windows(2) { ensure("the constraint is a chain of edges", bool_(dirs.contains(&(w[0], w[1])) || dirs.contains(&(w[1], w[0])))); }
    }
}
fn job(g: &[Point<S, 2>], cons: &[[usize; 2]]) -> FaceJobUV<S> { FaceJobUV { face_id: 0, verts_global: (0..g.len()).collect(), points_uv: g.to_vec(), segments: cons.to_vec() } }
fn batch(g: &[Point<S, 2>], cons: &[[usize; 2]]) -> Delaunay<S> {
    let m = cgar::mesh::basic_types::Mesh::<S, 3>::new();
    let mut r = Delaunay::build_batch_with_constraints_bowyer_watson(&[job(g, cons)], &m);
    ensure("one triangulation per job", bool_(r.len() == 1));
    r.pop().unwrap()
}
fn single(g: &[Point<S, 2>], cons: &[[usize; 2]]) -> Delaunay<S> {
    let m = cgar::mesh::basic_types::Mesh::<S, 3>::new();
    Delaunay::build_with_constraints_bowyer_watson(g, cons, &m, &job(g, cons))
}
fn flat(p: &[P]) -> bool { (2..p.len()).all(|i| turn(p[0], p[1], p[i]) == 0) }
/// a set of grid points, in one of four orders
fn grid(n: i64, most: u32) -> Vec<P> {
    let mask = choose(1 << (n * n));
    let size = mask.count_ones();
    need(bool_(size >= 3 && size <= most));
    let mut p: Vec<P> = (0..n * n).filter(|i| mask >> i & 1 == 1).map(|i| [i % n, i / n]).collect();
    need(bool_(!flat(&p)));
    order(&mut p, choose(2));
    p
}
fn order(p: &mut Vec<P>, k: usize) { if k == 1 { let n = p.len(); let mut q: Vec<P> = (0..n).step_by(2).chain((1..n).step_by(2)).map(|i| p[n - 1 - i]).collect(); std::mem::swap(p, &mut q); } }
fn nine() {
    let p = grid(3, 9);
    let g = points(&p, &placement(choose(PLACES)));
    sound(&p, &g, &Delaunay::build(&g), None);
    sound(&p, &g, &batch(&g, &[]), None);
}
fn sixteen() {
    let p = grid(4, 5);
    let g = points(&p, &placement(1));
    sound(&p, &g, &Delaunay::build(&g), None);
    sound(&p, &g, &batch(&g, &[]), None);
}
fn one_constraint() {
    let p = grid(3, 9);
    let (i, j) = (choose(p.len()), choose(p.len()));
    need(bool_(i != j));
    let g = points(&p, &placement(1));
    sound(&p, &g, &batch(&g, &[[i, j]]), Some(&[[i, j]]));
}
fn one_constraint_single() {
    let p = grid(3, 6);
    let (i, j) = (choose(p.len()), choose(p.len()));
    need(bool_(i < j));
    let g = points(&p, &placement(0));
    sound(&p, &g, &single(&g, &[[i, j]]), Some(&[[i, j]]));
}
/// several jobs at once, some too small
fn jobs() {
    let m = cgar::mesh::basic_types::Mesh::<S, 3>::new();
    let n = 1 + choose(3);
    let sets: Vec<Vec<P>> = (0..n).map(|k| match choose(4) { 3 => vec![[6, 2], [k as i64, 1]], 0 => vec![[0, 0], [2, 1], [1, 3]], 1 => vec![[0, 0], [4, 0], [4, 4], [0, 4], [1 + k as i64, 2]], _ => vec![[5, 0], [9, 1], [7, 8], [6, 3], [7, 4], [8, 2]] }).collect();
    let at = placement(choose(PLACES));
    let js: Vec<FaceJobUV<S>> = sets.iter().map(|p| job(&points(p, &at), &[])).collect();
    let r = Delaunay::build_batch_with_constraints_bowyer_watson(&js, &m);
    ensure("one triangulation per job", bool_(r.len() == n));
    for ((p, j), d) in sets.iter().zip(&js).zip(&r) {
        if p.len() >= 3 { sound(p, &j.points_uv, d, None); continue; }
        ensure("two points have no triangles", bool_(d.triangles.is_empty() && d.points.len() == p.len()));
        for (a, b) in d.points.iter().zip(&j.points_uv) { ensure("the points are kept", eqp(a, b)); }
    }
}
/// any distinct points without extremely flat triangles
fn some_points() -> Vec<P> {
    let n = 3 + choose(10);
    let size = [4, 7, 12, 30, 1000][choose(5)];
    let mut p: Vec<P> = vec![];
    for _ in 0..n { let q = [choose(size + 1) as i64, choose(size + 1) as i64]; if !p.contains(&q) { let mut r = p.clone(); r.push(q); if not_thin(&r) { p = r; } } }
    need(bool_(p.len() >= 3 && !flat(&p)));
    p
}
fn sampled() {
    let p = some_points();
    let g = points(&p, &placement(choose(PLACES)));
    sound(&p, &g, &Delaunay::build(&g), None);
    sound(&p, &g, &batch(&g, &[]), None);
}
fn sampled_constraints() {
    let p = some_points();
    let g = points(&p, &placement(choose(PLACES)));
    let mut cons: Vec<[usize; 2]> = vec![];
    for _ in 0..choose(12) {
        let (i, j) = (choose(p.len()), choose(p.len()));
        if i != j && !cons.iter().any(|c| cross(p[i], p[j], p[c[0]], p[c[1]])) { cons.push([i, j]); }
    }
    if choose(2) == 0 { sound(&p, &g, &batch(&g, &cons), Some(&cons)); } else { sound(&p, &g, &single(&g, &cons), Some(&cons)); }
}
const B: &[&str] = &["Delaunay::build", "Delaunay::build_batch_with_constraints_bowyer_watson", "Delaunay::bowyer_watson_insert_point", "Delaunay::point_in_circumcircle", "Delaunay::point_in_circumcircle_fast", "circumcircle_approx_fast", "bbox_approx2d"];
const C: &[&str] = &["Delaunay::build_with_constraints_bowyer_watson", "Delaunay::process_constraints_batch", "Delaunay::insert_constraint_walk", "split_constraint_chain", "on_segment", "param_t", "Adj::rebuild", "Adj::add_tri", "Adj::remove_tri", "Adj::replace_tri", "Delaunay::edge_exists", "third_vertex", "tri_edges"];
pub fn list() -> Vec<Decl> {
    vec![
        proof("points of a 3 by 3 grid", B, nine).within("every set of points of a 3 by 3 grid in two orders at four places"),
        proof("points of a 4 by 4 grid", B, sixteen).within("every set of at most 5 points of a 4 by 4 grid in two orders"),
        proof("one constraint, in a batch", C, one_constraint).within("every set of points of a 3 by 3 grid in two orders, every pair"),
        proof("one constraint", C, one_constraint_single).within("every set of at most 6 points of a 3 by 3 grid in two orders, every pair"),
        proof("several jobs", B, jobs).within("up to three jobs out of four"),
        bounded("sampled points", B, sampled),
        bounded("sampled constraints", C, sampled_constraints),
    ]
}
