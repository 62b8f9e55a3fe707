// C17: isotropic remeshing.
include!("patch.rs");
include!("surfaces.rs");
use cgar::mesh_processing::remesh::RemeshOptions;
use cgar::numeric::cgar_f64::CgarF64;
use num_traits::ToPrimitive as _;
fn choose_off(_: usize) -> usize { 0 }
type D = Mesh<CgarF64, 3>;
/// the connectivity of a mesh of doubles
fn links(d: &D) -> M<3> {
    let mut m = M::<3>::fresh();
    m.half_edges = d.half_edges.clone();
    m.faces = d.faces.clone();
    m.edge_map = d.edge_map.clone();
    m.vertices = d.vertices.iter().map(|v| { let mut w = cgar::mesh::vertex::Vertex::new(Point { coords: [num(0), num(0), num(0)] }); w.half_edge = v.half_edge; w.removed = v.removed; w }).collect();
    m
}
/// faces, Euler characteristic, border loops and components of a set of triangles
fn topology(ts: &[[usize; 3]]) -> (i64, usize, usize) {
    let vs: BTreeSet<usize> = ts.iter().flatten().copied().collect();
    let ds: BTreeSet<(usize, usize)> = ts.iter().flat_map(|t| dirs(t)).collect();
    let es: BTreeSet<(usize, usize)> = ds.iter().map(|e| (e.0.min(e.1), e.0.max(e.1))).collect();
    let mut left: Vec<(usize, usize)> = ds.iter().filter(|e| !ds.contains(&(e.1, e.0))).copied().collect();
    let mut loops = 0;
    while let Some((a, mut b)) = left.pop() {
        loops += 1;
        while b != a { match left.iter().position(|e| e.0 == b) { Some(k) => b = left.swap_remove(k).1, None => break } }
    }
    let mut group: BTreeMap<usize, usize> = vs.iter().map(|v| (*v, *v)).collect();
    for (a, b) in &es { let (x, y) = (group[a], group[b]); if x != y { for g in group.values_mut() { if *g == y { *g = x; } } } }
    let parts: BTreeSet<usize> = group.values().copied().collect();
    (vs.len() as i64 - es.len() as i64 + ts.len() as i64, loops, parts.len())
}
fn fans(ts: &[[usize; 3]]) -> bool {
    let vs: BTreeSet<usize> = ts.iter().flatten().copied().collect();
    vs.iter().all(|x| {
        let l: Vec<(usize, usize)> = ts.iter().filter(|t| t.contains(x)).map(|t| { let i = t.iter().position(|y| y == x).unwrap(); (t[(i + 1) % 3], t[(i + 2) % 3]) }).collect();
        // one chain or cycle
        let mut at = l.iter().find(|e| !l.iter().any(|f| f.1 == e.0)).unwrap_or(&l[0]).0;
        let first = at;
        let mut n = 0;
        while let Some(e) = l.iter().find(|e| e.0 == at) { n += 1; at = e.1; if at == first { break; } }
        n == l.len()
    })
}
fn remesh(ts: &[[usize; 3]], pts: &[[f64; 3]], target: f64, rounds: usize, plane: Option<usize>) {
    let mut m = D::new();
    for p in pts { m.vertices.push(cgar::mesh::vertex::Vertex::new(Point { coords: p.map(CgarF64::from) })); }
    for t in ts { m.add_triangle(t[0], t[1], t[2]); }
    need(bool_(inconsistency(&links(&m), None).is_none()));
    let mut o = RemeshOptions::new(CgarF64::from(target));
    o.max_iterations = rounds;
    let before = topology(ts);
    let r = m.isotropic_remesh(&o);
    ensure("remeshing succeeds", bool_(r.is_ok()));
    let l = links(&m);
    say("consistent", inconsistency(&l, None));
    let after = triangles(&l);
    ensure("the faces at each vertex form one fan", bool_(fans(&after)));
    if after.is_empty() { ensure("a closed surface does not vanish", bool_(before.1 > 0)); }
    else { ensure("Euler characteristic, border loops and components stay", bool_(topology(&after) == before)); }
    for t in &after { for v in t {
        let p = &m.vertices[*v].position;
        ensure("positions are finite", bool_((0..3).all(|i| p[i].to_f64().map_or(false, |x| x.is_finite()))));
        if let Some(k) = plane { ensure("vertices stay in the plane", bool_(p[k].to_f64().map_or(false, |x| (x - pts[0][k]).abs() < 1e-6))); }
    } }
}
fn enumerated() {
    let all = surfaces();
    let ts = &all[choose(all.len())];
    // not two faces on the same corners
    let sets: BTreeSet<[usize; 3]> = ts.iter().map(|t| { let mut t = *t; t.sort(); t }).collect();
    need(bool_(sets.len() == ts.len()));
    let n = 1 + ts.iter().flatten().max().unwrap();
    let pts: Vec<[f64; 3]> = (0..n).map(|i| [(choose(13) as f64) + 0.01 * i as f64, choose(13) as f64, choose(13) as f64 + 0.03 * i as f64]).collect();
    remesh(ts, &pts, [0.5, 1.0, 2.0, 3.0, 5.0, 8.0, 13.0, 20.0][choose(8)], 1 + choose(4), None);
}
fn sheets() {
    let (w, h) = (1 + choose(4), 1 + choose(4));
    let at = |i: usize, j: usize| i * (h + 1) + j;
    let mut ts = vec![];
    for i in 0..w { for j in 0..h {
        if choose(8) == 0 { continue; }
        let q = [at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)];
        if choose(2) == 0 { ts.push([q[0], q[1], q[2]]); ts.push([q[0], q[2], q[3]]); } else { ts.push([q[0], q[1], q[3]]); ts.push([q[1], q[2], q[3]]); }
    } }
    need(bool_(!ts.is_empty() && fans(&ts) && topology(&ts).2 == 1));
    let k = choose(3);
    let mut pts = vec![];
    for i in 0..=w { for j in 0..=h {
        let x = [i as f64 * 4.0 + choose(5) as f64 * 0.5, j as f64 * 4.0 + choose(5) as f64 * 0.5];
        let mut p = [7.0; 3];
        p[(k + 1) % 3] = x[0]; p[(k + 2) % 3] = x[1];
        pts.push(p);
    } }
    remesh(&ts, &pts, [0.5, 1.0, 2.0, 3.0, 5.0, 8.0, 13.0][choose(7)], 1 + choose(4), Some(k));
}
/// one vertex anywhere with K neighbours, inner or on the border
fn ring<const K: usize>(open: bool) -> M<3> {
    let mut m = M::<3>::fresh();
    m.vertices.push(cgar::mesh::vertex::Vertex::new(pt::<3>("a")));
    let bump = choose(3) as i64;
    for i in 0..K {
        let [x, y] = [[4, 0], [3, 5], [-2, 4], [-5, 1], [-3, -4], [2, -6]][i * 6 / K];
        m.vertices.push(cgar::mesh::vertex::Vertex::new(Point { coords: [num(x), num(y), num(bump * ((i * i) as i64 - 2))] }));
    }
    for i in 0..if open { K - 1 } else { K } { m.add_triangle(0, 1 + i, 1 + (i + 1) % K); }
    m
}
fn smooth<const K: usize>() { smoothed::<K>(false) }
fn pass<const K: usize>() { smoothed::<K>(true) }
fn smoothed<const K: usize>(pass: bool) {
    let mut m = ring::<K>(false);
    let (alpha, max) = if pass { (ratio(1, 2), var("limit")) } else { (var("alpha"), var("max")) };
    let old = m.clone();
    let at = |i: usize| old.vertices[i].position.clone();
    let e: Vec<[S; 3]> = (0..K).map(|i| diff(&at(1 + i), &at(0))).collect();
    let mut n: [S; 3] = [num(0), num(0), num(0)];
    let mut d = n.clone();
    for i in 0..K { let c = cross_(&e[i], &e[(i + 1) % K]); for k in 0..3 { n[k] = &n[k] + &c[k]; d[k] = &d[k] + &(&e[i][k] * &ratio(1, K as i64)); } }
    let moved = if pass { m.smooth_vertices(1, &max) == 1 } else { m.smooth_tangential(0, alpha.clone(), &max) };
    let max = if pass { &max * &max } else { max };
    let nn = dot_(&n, &n);
    let flat = split(&nn, 2);
    let t: [S; 3] = if flat { d } else { let k = &dot_(&d, &n) / &nn; std::array::from_fn(|i| &d[i] - &(&n[i] * &k)) };
    let to = Point { coords: std::array::from_fn::<S, 3, _>(|i| &at(0)[i] + &(&alpha * &t[i])) };
    let long: Vec<F> = (0..K).map(|i| { let v = diff(&to, &at(1 + i)); lt(&max, &dot_(&v, &v)) }).collect();
    if moved {
        ensure("moves within the tangent plane by the given fraction", eqp(&m.vertices[0].position, &to));
        ensure("no edge becomes longer than the limit", not(or(long)));
    } else {
        ensure("stays", eqp(&m.vertices[0].position, &at(0)));
        ensure("stays only if an edge would become too long", or(long));
    }
    for i in 1..=K { ensure("the neighbours stay", eqp(&m.vertices[i].position, &at(i))); }
    ensure("the connectivity stays", bool_(same_mesh_links(&old, &m)));
}
/// passes of smoothing over a bumpy sheet
fn passes() {
    let (w, h) = (2 + choose(3), 2 + choose(3));
    let at = |i: usize, j: usize| i * (h + 1) + j;
    let mut m = D::new();
    for i in 0..=w { for j in 0..=h {
        let p = [i as f64 * 2.0 + choose(5) as f64 * 0.25, j as f64 * 2.0 + choose(5) as f64 * 0.25, choose(5) as f64 * 0.5];
        m.vertices.push(cgar::mesh::vertex::Vertex::new(Point { coords: p.map(CgarF64::from) }));
    } }
    for i in 0..w { for j in 0..h {
        m.add_triangle(at(i, j), at(i + 1, j), at(i + 1, j + 1));
        m.add_triangle(at(i, j), at(i + 1, j + 1), at(i, j + 1));
    } }
    let place = |m: &D| -> Vec<[f64; 3]> { m.vertices.iter().map(|v| std::array::from_fn(|k| v.position[k].to_f64().unwrap_or(f64::NAN))).collect() };
    let long = |p: &[[f64; 3]], a: usize, b: usize| (0..3).map(|k| (p[a][k] - p[b][k]) * (p[a][k] - p[b][k])).sum::<f64>().sqrt();
    let (old, ts) = (place(&m), triangles(&links(&m)));
    let (rounds, limit) = (1 + choose(3), [0.1, 1.0, 2.0, 3.0, 4.0, 50.0][choose(6)]);
    let n = m.smooth_vertices(rounds, &CgarF64::from(limit));
    let new = place(&m);
    ensure("the faces stay", bool_(triangles(&links(&m)) == ts && inconsistency(&links(&m), None).is_none()));
    for t in &ts { for i in 0..3 {
        let (a, b) = (t[i], t[(i + 1) % 3]);
        ensure("no edge grows beyond the limit", bool_(long(&new, a, b) <= long(&old, a, b).max(limit) + 1e-9));
    } }
    for i in 0..=w { for j in 0..=h { if i == 0 || j == 0 || i == w || j == h { ensure("the border stays", bool_(old[at(i, j)] == new[at(i, j)])); } } }
    let inner = (w - 1) * (h - 1);
    ensure("a move is counted once", bool_(n <= rounds * inner));
    if limit > 40.0 { ensure("every inner vertex moves in every pass", bool_(n == rounds * inner)); }
    if limit < 0.2 { ensure("no vertex moves", bool_(n == 0 && old == new)); }
}
fn same_mesh_links(a: &M<3>, b: &M<3>) -> bool { triangles(a) == triangles(b) && a.half_edges.len() == b.half_edges.len() && inconsistency(b, None).is_none() }
fn border<const K: usize>() {
    let mut m = ring::<K>(true);
    let old = m.clone();
    let v = choose(K + 1);
    let moved = m.smooth_tangential(v, var("alpha"), &var("max"));
    ensure("a border vertex does not move", bool_(!moved));
    for i in 0..=K { ensure("all vertices stay", eqp(&m.vertices[i].position, &old.vertices[i].position)); }
    ensure("the connectivity stays", bool_(same_mesh_links(&old, &m)));
}
const T: &[&str] = &["Mesh::smooth_tangential", "Mesh::vertex_ring_ccw"];
const P: &[&str] = &["Mesh::smooth_vertices", "Mesh::smooth_tangential", "Mesh::vertex_ring_ccw"];
const R: &[&str] = &["Mesh::isotropic_remesh", "Mesh::split_long_edges", "Mesh::collapse_short_edges", "Mesh::flip_edges", "Mesh::should_flip_edge", "Mesh::smooth_vertices", "Mesh::smooth_tangential"];
pub fn list() -> Vec<Decl> {
    vec![
        proof("smoothing, three neighbours", T, smooth::<3>).within("one vertex anywhere, three places of the neighbours"),
        proof("smoothing, four neighbours", T, smooth::<4>).within("one vertex anywhere, three places of the neighbours"),
        proof("smoothing, five neighbours", T, smooth::<5>).within("one vertex anywhere, three places of the neighbours"),
        proof("smoothing, six neighbours", T, smooth::<6>).within("one vertex anywhere, three places of the neighbours"),
        proof("one pass, three neighbours", P, pass::<3>).within("one inner vertex anywhere, three places of the neighbours"),
        proof("one pass, five neighbours", P, pass::<5>).within("one inner vertex anywhere, three places of the neighbours"),
        proof("smoothing on the border", T, border::<3>).within("a fan of two faces"),
        proof("smoothing on a wider border", T, border::<5>).within("a fan of four faces"),
        bounded("passes of smoothing", R, passes),
        bounded("small surfaces", R, enumerated),
        bounded("sheets", R, sheets),
    ]
}
