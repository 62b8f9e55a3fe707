// Local patches of a mesh: the elements near an edge or face, with names for everything outside.
//
// A patch holds real half-edges, faces and vertices; links that leave it are names (numbers from OUT on) of elements
// that are not there.  The operation under contract may copy such names but not look behind them; a mesh of any size
// restricted to the neighbourhood of an edge or face is one of the patches enumerated here.
#[allow(unused_imports)]
use cgar::{geometry::aabb_tree::AabbTree, mesh::{basic_types::*, face::Face, half_edge::HalfEdge}};
#[allow(unused_imports)]
use std::collections::{BTreeMap, BTreeSet};
const OUT: usize = 1 << 40;
type M<const N: usize> = Mesh<S, N>;
/// creation of meshes of either dimension
trait Dim<const N: usize> { fn fresh() -> Self; fn vertex(&mut self, p: Point<S, N>) -> usize; }
impl Dim<2> for M<2> { fn fresh() -> Self { M::<2>::new() } fn vertex(&mut self, p: Point<S, 2>) -> usize { self.add_vertex(p) } }
impl Dim<3> for M<3> { fn fresh() -> Self { M::<3>::new() } fn vertex(&mut self, p: Point<S, 3>) -> usize { self.add_vertex(p) } }
fn outside(i: usize) -> bool { i >= OUT && i != usize::MAX }
struct Patch<const N: usize> { m: M<N>, names: usize, hs: Vec<usize>, fs: Vec<usize>, vs: Vec<usize> }
impl<const N: usize> Patch<N> where M<N>: Dim<N> {
    /// spare elements are removed ones; the numbering is arbitrary: ascending or descending
    fn new(h: usize, f: usize, pts: &[Point<S, N>]) -> Self {
        let mut m = <M<N> as Dim<N>>::fresh();
        let down = choose(2) == 1;
        let (mut hs, mut fs, mut vs): (Vec<usize>, Vec<usize>, Vec<usize>) = ((1..h + 1).collect(), (1..f + 1).collect(), (0..pts.len()).collect());
        if down { hs.reverse(); fs.reverse(); vs.reverse(); }
        for i in 0..pts.len() { m.vertex(pts[vs[i]].clone()); }
        m.half_edges = (0..h + 2).map(|i| { let mut e = HalfEdge::new(0); e.removed = true; e.next = i; e.prev = i; e.twin = i; e }).collect();
        m.faces = (0..f + 2).map(|_| { let mut f = Face::new(0); f.removed = true; f }).collect();
        Patch { m, names: OUT, hs, fs, vs }
    }
    fn name(&mut self) -> usize { self.names += 1; self.names }
    fn v(&self, i: usize) -> usize { self.vs[i] }
    /// both directions of an edge between vertices a and b
    fn edge(&mut self, a: usize, b: usize) -> (usize, usize) {
        let (h, t) = (self.hs.pop().unwrap(), self.hs.pop().unwrap());
        for (h, t, x, y) in [(h, t, a, b), (t, h, b, a)] {
            let (p, n) = (self.name(), self.name());
            self.m.half_edges[h] = HalfEdge::new(y);
            let e = &mut self.m.half_edges[h];
            (e.twin, e.prev, e.next) = (t, p, n);
            self.m.edge_map.insert((x, y), h);
        }
        (h, t)
    }
    fn face(&mut self, h: [usize; 3]) -> usize {
        let f = self.fs.pop().unwrap();
        self.m.faces[f] = Face::new(h[choose_off(3)]);
        for i in 0..3 { let e = &mut self.m.half_edges[h[i]]; (e.face, e.next, e.prev) = (Some(f), h[(i + 1) % 3], h[(i + 2) % 3]); }
        f
    }
    /// the face on the far side of an edge of the patch, of which only this half-edge is seen; maybe none
    fn far(&mut self, h: usize) { let k = choose(2); self.far_is(h, k == 1) }
    fn far_is(&mut self, h: usize, face: bool) {
        if face { let f = self.fs.pop().unwrap(); self.m.faces[f] = Face::new(h); self.m.half_edges[h].face = Some(f); }
    }
    /// the half-edge remembered by a vertex: one of these or one outside
    fn out_of(&mut self, v: usize, hs: &[usize]) {
        let k = choose(hs.len() + 1);
        let h = if k < hs.len() { hs[k] } else { self.name() };
        self.m.vertices[v].half_edge = Some(h);
    }
}
/// corners of a live face
fn corners<const N: usize>(m: &M<N>, f: usize) -> Option<[usize; 3]> {
    let h0 = m.faces[f].half_edge;
    let h1 = m.half_edges.get(h0)?.next;
    let h2 = m.half_edges.get(h1)?.next;
    let h3 = m.half_edges.get(h2)?.next;
    if h3 != h0 { return None; }
    Some(canon([m.half_edges[h2].vertex, m.half_edges[h0].vertex, m.half_edges[h1].vertex]))
}
fn canon(t: [usize; 3]) -> [usize; 3] { let k = (0..3).min_by_key(|&i| t[i]).unwrap(); [t[k], t[(k + 1) % 3], t[(k + 2) % 3]] }
/// Is the mesh (or patch) consistent?  `old` gives the links that may lead outside.
fn inconsistency<const N: usize>(m: &M<N>, old: Option<&M<N>>) -> Option<String> {
    let n = m.half_edges.len();
    let mut map: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut seen = BTreeMap::new();
    for h in 0..n {
        let e = &m.half_edges[h];
        if e.removed { continue; }
        if e.vertex >= m.vertices.len() || m.vertices[e.vertex].removed { return Some(format!("half-edge {} has no end", h)); }
        if e.twin >= n || e.twin == h || m.half_edges[e.twin].removed || m.half_edges[e.twin].twin != h { return Some(format!("twin of half-edge {}", h)); }
        let tail = m.half_edges[e.twin].vertex;
        if tail == e.vertex { return Some(format!("half-edge {} is a loop", h)); }
        for (l, back) in [(e.next, true), (e.prev, false)] {
            if outside(l) {
                let Some(o) = old else { return Some(format!("half-edge {} leads nowhere", h)) };
                if h >= o.half_edges.len() || (if back { o.half_edges[h].next } else { o.half_edges[h].prev }) != l { return Some(format!("half-edge {} leads elsewhere outside", h)); }
                continue;
            }
            if l >= n || m.half_edges[l].removed { return Some(format!("half-edge {} leads to a removed one", h)); }
            let x = &m.half_edges[l];
            if (if back { x.prev } else { x.next }) != h { return Some(format!("next and previous of half-edge {} disagree", h)); }
            if x.face != e.face { return Some(format!("faces of half-edge {} and its neighbour differ", h)); }
            if back && (x.twin >= n || m.half_edges[x.twin].vertex != e.vertex) { return Some(format!("half-edge {} and the next one do not meet", h)); }
        }
        match e.face {
            Some(f) => {
                if f >= m.faces.len() || m.faces[f].removed { return Some(format!("half-edge {} has a removed face", h)); }
                if !outside(e.next) {
                    let x = m.half_edges[e.next].next;
                    if x >= n || m.half_edges[x].next != h { return Some(format!("the cycle of half-edge {} has not three edges", h)); }
                    if m.faces[f].half_edge != h && m.faces[f].half_edge != e.next && m.faces[f].half_edge != x { return Some(format!("face {} starts elsewhere", f)); }
                }
            }
            None => if m.half_edges[e.twin].face.is_none() { return Some(format!("edge {} without a face", h)); },
        }
        if seen.insert((tail, e.vertex), h).is_some() { return Some(format!("two half-edges from {} to {}", tail, e.vertex)); }
        map.insert((tail, e.vertex), h);
    }
    for (k, h) in &m.edge_map {
        if outside(*h) { if old.map(|o| o.edge_map.get(k)) != Some(Some(h)) { return Some("edge lookup names an unknown half-edge".into()); } continue; }
        if map.get(k) != Some(h) { return Some(format!("edge lookup of {:?}", k)); }
    }
    for k in map.keys() { if !m.edge_map.contains_key(k) { return Some(format!("edge {:?} is not found", k)); } }
    for (f, x) in m.faces.iter().enumerate() {
        if x.removed { continue; }
        if x.half_edge >= n || m.half_edges[x.half_edge].removed || m.half_edges[x.half_edge].face != Some(f) { return Some(format!("face {} has a wrong half-edge", f)); }
    }
    for (v, x) in m.vertices.iter().enumerate() {
        match x.half_edge {
            Some(h) if outside(h) => if old.map(|o| o.vertices.get(v).map(|y| y.half_edge)) != Some(Some(x.half_edge)) { return Some(format!("vertex {} has an unknown half-edge", v)); },
            Some(h) => if h >= n || m.half_edges[h].removed || m.half_edges[h].twin >= n || m.half_edges[m.half_edges[h].twin].vertex != v { return Some(format!("vertex {} has a half-edge that does not leave it", v)); },
            None => if m.half_edges.iter().any(|e| !e.removed && e.vertex == v) { return Some(format!("vertex {} has no half-edge", v)); },
        }
    }
    None
}
/// live faces seen completely
fn triangles<const N: usize>(m: &M<N>) -> Vec<[usize; 3]> {
    let mut r: Vec<_> = (0..m.faces.len()).filter(|&f| !m.faces[f].removed).filter_map(|f| corners(m, f)).collect();
    r.sort();
    r
}
fn same_mesh<const N: usize>(a: &M<N>, b: &M<N>) -> bool {
    let he = |e: &HalfEdge| (e.vertex, e.face, e.next, e.prev, e.twin, e.removed);
    a.half_edges.len() == b.half_edges.len() && a.faces.len() == b.faces.len() && a.vertices.len() == b.vertices.len()
        && a.half_edges.iter().zip(&b.half_edges).all(|(x, y)| x.removed && y.removed || he(x) == he(y))
        && a.faces.iter().zip(&b.faces).all(|(x, y)| x.removed && y.removed || (x.half_edge, x.removed) == (y.half_edge, y.removed))
        && a.vertices.iter().zip(&b.vertices).all(|(x, y)| (x.half_edge, x.removed) == (y.half_edge, y.removed))
        && a.edge_map == b.edge_map
}
fn say(l: &str, bad: Option<String>) { match bad { None => ensure(l, t()), Some(s) => ensure(&format!("{}: {}", l, s), ff()) } }
/// the result of an operation that replaces the faces `gone` by the triangles `new`
fn replaced<const N: usize>(old: &M<N>, m: &M<N>, gone: &[usize], new: &[[usize; 3]]) {
    say("consistent connectivity", inconsistency(m, Some(old)));
    let mut want: Vec<[usize; 3]> = (0..old.faces.len()).filter(|f| !old.faces[*f].removed && !gone.contains(f)).filter_map(|f| corners(old, f)).collect();
    want.extend(new.iter().map(|t| canon(*t)));
    want.sort();
    ensure("the faces are those before with the intended ones replaced", bool_(triangles(m) == want));
    untouched(old, m, gone);
}
fn untouched<const N: usize>(old: &M<N>, m: &M<N>, gone: &[usize]) {
    for f in 0..old.faces.len() {
        if !old.faces[f].removed && !gone.contains(&f) {
            ensure("other faces are kept", bool_(!m.faces[f].removed && m.faces[f].half_edge == old.faces[f].half_edge && corners(old, f) == corners(m, f)));
        }
    }
    for h in 0..old.half_edges.len() {
        let (e, x) = (&old.half_edges[h], &m.half_edges[h]);
        if e.removed || e.face.is_none() || gone.contains(&e.face.unwrap()) { continue; }
        ensure("half-edges of other faces are kept", bool_(!x.removed && (x.vertex, x.face, x.next, x.prev) == (e.vertex, e.face, e.next, e.prev)));
    }
    for v in 0..old.vertices.len() {
        ensure("vertices are kept", bool_(!m.vertices[v].removed));
        ensure("positions are kept", eqp(&old.vertices[v].position, &m.vertices[v].position));
    }
}
