// C15: collapsing an edge.
include!("patch.rs");
include!("surfaces.rs");
use cgar::mesh::edge_collapse::*;
fn choose_off(_: usize) -> usize { 0 }
/// what remains after u and v are merged
fn merged(ts: &[[usize; 3]], u: usize, v: usize) -> Vec<[usize; 3]> {
    let mut r: Vec<_> = ts.iter().filter(|t| !(t.contains(&u) && t.contains(&v))).map(|t| canon(t.map(|x| if x == v { u } else { x }))).collect();
    r.sort();
    r
}
fn flat(t: &[Point<S, 3>; 3], yes: bool) -> F {
    let c = cross_(&diff(&t[1], &t[0]), &diff(&t[2], &t[0]));
    if yes { and(c.iter().map(zero).collect()) } else { or(c.iter().map(nonzero).collect()) }
}
/// the outcome `r` of collapsing u v with the merged vertex at `at`
fn outcome<E>(old: &M<3>, m: &M<3>, u: usize, v: usize, r: Result<(), E>, at: &Point<S, 3>, may: bool) {
    let ts = triangles(old);
    let joined = ts.iter().flat_map(|t| dirs(t)).any(|e| e == (u, v) || e == (v, u));
    match r {
        Ok(()) => {
            ensure("only an edge is collapsed", bool_(joined));
            ensure("a collapse that glues edges or faces is refused", bool_(!joined || collapsible(&ts, u, v) || !merged(&ts, u, v).iter().any(|t| t.contains(&u))));
            say("consistent connectivity", inconsistency(m, None));
            ensure("exactly the faces of the edge are gone", bool_(triangles(m) == merged(&ts, u, v)));
            ensure("one vertex is gone", bool_(m.vertices.len() == old.vertices.len() && (0..old.vertices.len()).all(|x| m.vertices[x].removed == (old.vertices[x].removed || x == v))));
            for x in 0..old.vertices.len() { if x != u && x != v { ensure("other vertices stay", eqp(&m.vertices[x].position, &old.vertices[x].position)); } }
            ensure("the vertex is at the chosen position", eqp(&m.vertices[u].position, at));
            for t in triangles(m) { if t.contains(&u) { ensure("no face becomes degenerate", flat(&t.map(|x| m.vertices[x].position.clone()), false)); } }
        }
        Err(_) => {
            ensure("a refused collapse changes nothing", bool_(same_mesh(old, m)));
            if may && joined && collapsible(&ts, u, v) {
                let left: Vec<_> = merged(&ts, u, v).into_iter().filter(|t| t.contains(&u)).map(|t| t.map(|x| if x == u { at.clone() } else { old.vertices[x].position.clone() })).collect();
                if !left.is_empty() { ensure("an edge is refused only if a face would become degenerate", or(left.iter().map(|t| flat(t, true)).collect())); }
            }
            for x in 0..old.vertices.len() { ensure("vertices stay", eqp(&m.vertices[x].position, &old.vertices[x].position)); }
        }
    }
}
fn middle(m: &M<3>, u: usize, v: usize) -> Point<S, 3> { lerp(&m.vertices[u].position, &m.vertices[v].position, &ratio(1, 2)) }
fn step(m: &mut M<3>, u: usize, v: usize) {
    let old = m.clone();
    let r = m.collapse_edge(u, v);
    outcome(&old, m, u, v, r, &middle(&old, u, v), true);
}
fn one() {
    let s = surfaces();
    let ts = &s[choose(s.len())];
    let n = 1 + ts.iter().flatten().max().unwrap();
    let mut m = build(ts);
    let u = choose(n);
    let v = choose(n);
    if u == v { let old = m.clone(); ensure("a vertex is no edge", bool_(m.collapse_edge(u, v).is_err())); ensure("nothing changes", bool_(same_mesh(&old, &m))); return; }
    step(&mut m, u, v);
}
/// from a half-edge, with the options
fn planned() {
    let s = surfaces();
    let few = s.iter().take_while(|t| t.len() <= 8).count();
    let ts = &s[choose(few)];
    let old = build(ts);
    let mut m = old.clone();
    let h = choose(m.half_edges.len());
    let (u, v) = (m.source(h), m.target(h));
    let border = m.half_edges[h].face.is_none() || m.half_edges[m.half_edges[h].twin].face.is_none();
    let mut o = CollapseOpts::default();
    o.forbid_border = choose(2) == 1;
    let r = m.collapse_edge_begin_he(h, &Midpoint, &o);
    ensure("planning changes nothing", bool_(same_mesh(&old, &m)));
    if o.forbid_border && border { ensure("border edges are refused if so asked", bool_(r.is_err())); }
    let r = r.and_then(|p| { ensure("the first end is kept", bool_(p.v_keep == u && p.v_gone == v)); m.collapse_edge_commit(p) });
    outcome(&old, &m, u, v, r, &middle(&old, u, v), !(o.forbid_border && border));
}
/// any position chosen
struct At(Point<S, 3>);
impl Placement<S, 3> for At { fn place(&self, _: &M<3>, _: usize, _: usize) -> Point<S, 3> { self.0.clone() } }
fn placed() {
    let s = surfaces();
    let few = s.iter().take_while(|t| t.len() <= 4).count();
    let ts = &s[choose(few)];
    let old = build(ts);
    let mut m = old.clone();
    let n = m.vertices.len();
    let u = choose(n);
    let v = choose(n);
    need(bool_(u != v));
    let at = pt::<3>("p");
    let r = m.collapse_edge_begin_vertices(u, v, &At(at.clone()), &CollapseOpts::default()).and_then(|p| m.collapse_edge_commit(p));
    outcome(&old, &m, u, v, r, &at, false);
}
/// one after another
fn several<const K: usize>(most: usize) {
    let s = surfaces();
    let few = s.iter().take_while(|t| t.len() <= most).count();
    let ts = &s[choose(few)];
    let mut m = build(ts);
    for _ in 0..K {
        let mut es: Vec<(usize, usize)> = triangles(&m).iter().flat_map(|t| dirs(t)).flat_map(|e| [e, (e.1, e.0)]).collect();
        es.sort(); es.dedup();
        if es.is_empty() { return; }
        let (u, v) = es[choose(es.len())];
        step(&mut m, u, v);
        if inconsistency(&m, None).is_some() { return; }
    }
}
fn two() { several::<2>(6) }
/// grids with or without holes, until nothing is left to collapse
fn many() {
    let (w, h) = (3 + choose(3), 3 + choose(3));
    let at = |i: usize, j: usize| i * (h + 1) + j;
    let mut ts = vec![];
    for i in 0..w { for j in 0..h {
        if choose(8) == 0 { continue; }
        let q = [at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)];
        if choose(2) == 0 { ts.push([q[0], q[1], q[2]]); ts.push([q[0], q[2], q[3]]); } else { ts.push([q[0], q[1], q[3]]); ts.push([q[1], q[2], q[3]]); }
    } }
    need(bool_(!ts.is_empty()));
    let mut m = M::<3>::fresh();
    for i in 0..=w { for j in 0..=h { m.vertex(Point { coords: [num(i as i64 * 16 + choose(5) as i64), num(j as i64 * 16 + choose(5) as i64), num(choose(5) as i64)] }); } }
    for t in &ts { m.add_triangle(t[0], t[1], t[2]); }
    for _ in 0..12 {
        let es: Vec<(usize, usize)> = triangles(&m).iter().flat_map(|t| dirs(t)).collect();
        if es.is_empty() { return; }
        let (u, v) = es[choose(es.len())];
        // surfaces only: the faces at either end form one fan
        let fan = |x: usize| {
            let l: Vec<(usize, usize)> = triangles(&m).iter().filter(|t| t.contains(&x)).map(|t| { let i = t.iter().position(|y| *y == x).unwrap(); (t[(i + 1) % 3], t[(i + 2) % 3]) }).collect();
            l.iter().filter(|e| !l.iter().any(|f| f.1 == e.0)).count() <= 1
        };
        if !fan(u) || !fan(v) { continue; }
        let (u, v) = if choose(2) == 0 { (u, v) } else { (v, u) };
        step(&mut m, u, v);
        if inconsistency(&m, None).is_some() { return; }
    }
}
const ALL: &[&str] = &["Mesh::collapse_edge", "Mesh::collapse_edge_begin_vertices", "Mesh::verify_collapse_prereqs", "Mesh::check_link_condition_triangle", "Mesh::ring_pair", "Mesh::collapse_edge_commit"];
pub fn list() -> Vec<Decl> {
    vec![
        proof("one collapse", ALL, one).within("connected surfaces of at most 7 vertices, and of 8 vertices and at most 10 faces"),
        proof("planned collapse", &["Mesh::collapse_edge_begin_he", "Mesh::collapse_edge_commit"], planned).within("connected surfaces of at most 8 vertices and 8 faces"),
        proof("chosen position", &["Mesh::collapse_edge_begin_vertices", "Mesh::verify_collapse_prereqs", "Mesh::collapse_edge_commit"], placed).within("connected surfaces of at most 4 faces, any position"),
        proof("two collapses", ALL, two).within("connected surfaces of at most 6 faces"),
        bounded("many collapses", ALL, many),
    ]
}
