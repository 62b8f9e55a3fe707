// C10: adding and removing triangles.
include!("patch.rs");
include!("surfaces.rs");
fn choose_off(_: usize) -> usize { 0 }
/// a mesh under construction and the triangles it should contain (face, corners)
struct Model { m: M<3>, tris: BTreeMap<usize, [usize; 3]>, n: usize }
fn start(n: usize) -> Model {
    let mut m = M::<3>::fresh();
    for i in 0..n { let k = i as i64; m.vertex(Point { coords: [num(k), num(k * k), num(k * k * k)] }); }
    Model { m, tris: BTreeMap::new(), n }
}
impl Model {
    fn free(&self, t: &[usize; 3]) -> bool { let u: BTreeSet<_> = self.tris.values().flat_map(|x| dirs(x)).collect(); dirs(t).iter().all(|d| !u.contains(d)) }
    /// oriented triangles that can be added, up to the first corner
    fn addable(&self) -> Vec<[usize; 3]> {
        let mut r = vec![];
        // unused vertices are interchangeable: the first unused ones stand for all
        let used: BTreeSet<usize> = self.tris.values().flatten().copied().collect();
        let fresh: Vec<usize> = (0..self.n).filter(|v| !used.contains(v)).collect();
        for a in 0..self.n { for b in 0..self.n { for c in 0..self.n {
            if a == b || b == c || c == a || a > b || a > c { continue; }
            let f: Vec<usize> = { let mut f: Vec<usize> = [a, b, c].into_iter().filter(|v| fresh.contains(v)).collect(); f.sort(); f };
            if f != fresh[..f.len()] { continue; }
            if self.free(&[a, b, c]) { r.push([a, b, c]); }
        } } }
        r
    }
    fn added(&mut self, f: usize, t: [usize; 3]) {
        ensure("a new face", bool_(f < self.m.faces.len() && !self.tris.contains_key(&f)));
        self.tris.insert(f, t);
    }
    fn add(&mut self, t: [usize; 3]) { let f = self.m.add_triangle(t[0], t[1], t[2]); self.added(f, t); }
    fn remove(&mut self, f: usize) { self.m.remove_triangle(f); self.tris.remove(&f); }
    fn add_all(&mut self, ts: &[[usize; 3]]) {
        let fs = self.m.add_triangles_deferred(&ts.iter().map(|t| (t[0], t[1], t[2])).collect::<Vec<_>>());
        ensure("one face for each triangle", bool_(fs.len() == ts.len()));
        for (f, t) in fs.iter().zip(ts) { self.added(*f, *t); }
    }
    fn remove_all(&mut self, fs: &[usize]) {
        let (starts, vs) = self.m.remove_triangles_deferred(fs);
        self.m.weld_border_components_from(&starts);
        self.m.fix_vertices_outgoing_for(&vs);
        for f in fs { self.tris.remove(f); }
    }
    /// the number of fans of triangles around a vertex
    fn fans(&self, v: usize) -> usize {
        let fs: Vec<&[usize; 3]> = self.tris.values().filter(|t| t.contains(&v)).collect();
        let mut left: Vec<usize> = (0..fs.len()).collect();
        let mut n = 0;
        while let Some(k) = left.pop() {
            n += 1;
            let mut q = vec![k];
            while let Some(i) = q.pop() {
                let near = |j: usize| dirs(fs[i]).iter().any(|d| (d.0 == v || d.1 == v) && dirs(fs[j]).contains(&(d.1, d.0)));
                let (a, b): (Vec<usize>, Vec<usize>) = left.iter().partition(|&&j| near(j));
                q.extend(a);
                left = b;
            }
        }
        n
    }
    fn check(&self) {
        let m = &self.m;
        say("consistent connectivity", inconsistency(m, None));
        let live: Vec<usize> = (0..m.faces.len()).filter(|&f| !m.faces[f].removed).collect();
        ensure("the faces are those added and not removed", bool_(live.len() == self.tris.len() && live.iter().all(|f| self.tris.contains_key(f))));
        if live.iter().any(|f| corners(m, *f) != self.tris.get(f).map(|t| canon(*t))) { ensure("faces have the requested corners in order", ff()); return; }
        ensure("faces have the requested corners in order", t());
    }
    fn traverse(&self) {
        let m = &self.m;
        let d: BTreeSet<(usize, usize)> = self.tris.values().flat_map(|x| dirs(x)).collect();
        for (f, t) in &self.tris {
            ensure("corners of a face", bool_(canon(m.face_vertices(*f)) == canon(*t)));
            let hs = m.face_half_edges(*f);
            ensure("half-edges of a face", bool_(hs.len() == 3 && (0..3).all(|i| m.half_edges[hs[i]].next == hs[(i + 1) % 3] && m.half_edges[hs[i]].face == Some(*f))));
            let mut near: Vec<usize> = self.tris.iter().filter(|(_, u)| dirs(t).iter().any(|(a, b)| dirs(u).contains(&(*b, *a)))).map(|x| *x.0).collect();
            near.sort();
            let mut got: Vec<usize> = m.adjacent_faces(*f).collect();
            got.sort(); got.dedup();
            ensure("adjacent faces", bool_(got == near));
            for g in self.tris.keys() { if g != f { ensure("adjacency of two faces", bool_(m.are_faces_adjacent(*f, *g) == near.contains(g))); } }
        }
        for a in 0..self.n { for b in 0..self.n { if a != b {
            let e = d.contains(&(a, b)) || d.contains(&(b, a));
            ensure("vertices joined by an edge", bool_(m.are_vertices_connected(a, b) == e && m.half_edge_between(a, b).is_some() == e && (m.vertices_connection(a, b) != usize::MAX) == e));
            if let Some(h) = m.half_edge_between(a, b) { ensure("ends of a half-edge", bool_(m.source(h) == a && m.target(h) == b && m.edge_half_edges(a, b) == Some((h, m.half_edges[h].twin)))); }
        } } }
        for v in 0..self.n {
            if self.fans(v) != 1 { continue; }
            let fs: BTreeSet<usize> = self.tris.iter().filter(|(_, t)| t.contains(&v)).map(|x| *x.0).collect();
            let vs: BTreeSet<usize> = d.iter().filter(|e| e.0 == v || e.1 == v).map(|e| e.0 + e.1 - v).collect();
            let border = d.iter().any(|e| (e.0 == v || e.1 == v) && !d.contains(&(e.1, e.0)));
            ensure("faces at a vertex", bool_(m.incident_faces(v).into_iter().collect::<BTreeSet<_>>() == fs));
            let mut l = m.faces_around_vertex(v);
            l.sort();
            ensure("faces around a vertex, each once", bool_(l == fs.iter().copied().collect::<Vec<_>>()));
            let mut l = m.one_ring_neighbors(v);
            l.sort();
            ensure("neighbours of a vertex, each once", bool_(l == vs.iter().copied().collect::<Vec<_>>()));
            ensure("border vertices", bool_(m.is_boundary_vertex(v) == border));
            for f in self.tris.keys() { ensure("a face touches a vertex", bool_(m.vertex_touches_face(v, *f) == fs.contains(f))); }
            let r = m.vertex_ring_ccw(v);
            let mut l = r.neighbors_ccw.clone();
            l.sort();
            ensure("ring of a vertex", bool_(l == vs.iter().copied().collect::<Vec<_>>() && r.is_border == border && r.center == v && r.halfedges_ccw.len() == vs.len() && r.faces_ccw.len() == vs.len()));
            let ok = (0..r.halfedges_ccw.len()).all(|i| { let h = r.halfedges_ccw[i]; m.half_edges[h].vertex == r.neighbors_ccw[i] && m.source(h) == v && m.half_edges[h].face == r.faces_ccw[i] });
            ensure("entries of the ring belong together", bool_(ok));
        }
    }
}
fn script<const N: usize, const K: usize>() {
    let mut s = start(N);
    s.add([0, 1, 2]);
    for _ in 1..K {
        let ts = s.addable();
        let fs: Vec<usize> = s.tris.keys().copied().collect();
        let k = choose(ts.len() + fs.len());
        if k < ts.len() { s.add(ts[k]) } else { s.remove(fs[k - ts.len()]) }
        s.check();
    }
    s.traverse();
}
/// K triangles one by one, then a batch removed; then another batch added
fn batches<const N: usize, const K: usize>() {
    let mut s = start(N);
    s.add([0, 1, 2]);
    for _ in 1..K { let ts = s.addable(); if ts.is_empty() { return; } let k = choose(ts.len()); s.add(ts[k]); }
    let fs: Vec<usize> = s.tris.keys().copied().collect();
    let some = 1 + choose((1 << fs.len()) - 1);
    let gone: Vec<usize> = fs.iter().enumerate().filter(|(i, _)| some >> i & 1 == 1).map(|x| *x.1).collect();
    let back: Vec<[usize; 3]> = gone.iter().map(|f| s.tris[f]).collect();
    s.remove_all(&gone);
    s.check();
    s.traverse();
    s.add_all(&back);
    s.check();
    s.traverse();
}
/// a batch of K triangles at once
fn at_once<const N: usize, const K: usize>() {
    let mut s = start(N);
    let mut o = start(N);
    let mut ts = vec![[0, 1, 2]];
    o.tris.insert(0, [0, 1, 2]);
    for k in 1..K { let a = o.addable(); if a.is_empty() { return; } let i = choose(a.len()); o.tris.insert(k, a[i]); ts.push(a[i]); }
    s.add_all(&ts);
    s.check();
    s.traverse();
}
/// the border loops are rebuilt from scratch
fn loops<const N: usize, const K: usize>() {
    let mut s = start(N);
    s.add([0, 1, 2]);
    for _ in 1..K { let ts = s.addable(); if ts.is_empty() { return; } let k = choose(ts.len()); s.add(ts[k]); }
    let b: Vec<usize> = (0..s.m.half_edges.len()).filter(|&h| !s.m.half_edges[h].removed && s.m.half_edges[h].face.is_none()).collect();
    for h in b { s.m.half_edges[h].next = h; s.m.half_edges[h].prev = h; }
    s.m.build_boundary_loops();
    s.check();
    s.traverse();
}
/// long random histories on more vertices
fn history() {
    let n = 4 + choose(6);
    let mut s = start(n);
    s.add([0, 1, 2]);
    for _ in 0..choose(24) {
        let ts = s.addable();
        let fs: Vec<usize> = s.tris.keys().copied().collect();
        match choose(8) {
            0..=4 if !ts.is_empty() => { let k = choose(ts.len()); s.add(ts[k]) }
            5 | 6 if !fs.is_empty() => { let k = choose(fs.len()); s.remove(fs[k]) }
            7 if !fs.is_empty() => { let g: Vec<usize> = fs.iter().copied().filter(|_| choose(3) == 0).collect(); s.remove_all(&g); }
            _ => {}
        }
        s.check();
    }
    s.traverse();
}
/// a surface and one more triangle, or one or two less
fn on_surface(most: usize, op: usize) {
    let all = surfaces();
    let few = all.iter().take_while(|t| t.len() <= most).count();
    let ts = &all[choose(few)];
    let n = 1 + ts.iter().flatten().max().unwrap();
    let mut s = start(n + 3);
    for t in ts { s.add(*t); }
    let fs: Vec<usize> = s.tris.keys().copied().collect();
    match op {
        0 => { let a = s.addable(); s.add(a[choose(a.len())]); }
        1 => s.remove(fs[choose(fs.len())]),
        _ => { let i = choose(fs.len()); let j = choose(fs.len()); s.remove_all(&if i == j { vec![fs[i]] } else { vec![fs[i], fs[j]] }); }
    }
    s.check();
    s.traverse();
}
fn one_more() { on_surface(8, 0) }
fn one_less() { on_surface(14, 1) }
fn two_less() { on_surface(8, 2) }
pub fn list() -> Vec<Decl> {
    let tr: &[&str] = &["Mesh::add_triangle", "Mesh::remove_triangle", "Mesh::find_next_border", "Mesh::rebuild_border_component_from", "Mesh::vertex_ring_ccw", "Mesh::one_ring_neighbors", "Mesh::incident_faces", "Mesh::faces_around_vertex", "Mesh::is_boundary_vertex", "Mesh::adjacent_faces", "Mesh::are_faces_adjacent", "Mesh::face_vertices", "Mesh::face_half_edges", "Mesh::vertex_touches_face"];
    vec![
        proof("histories of four operations", tr, script::<6, 4>).within("up to four operations on six vertices"),
        proof("histories of five operations", tr, script::<5, 5>).within("up to five operations on five vertices"),
        proof("batches", &["Mesh::remove_triangles_deferred", "Mesh::add_triangles_deferred", "Mesh::add_triangle_no_weld", "Mesh::ensure_dir_no_weld", "Mesh::weld_border_components_from", "Mesh::fix_vertices_outgoing_for"], batches::<5, 4>).within("four triangles on five vertices, any of them removed and added again"),
        proof("one batch", &["Mesh::add_triangles_deferred", "Mesh::weld_border_components_from"], at_once::<5, 4>).within("four triangles on five vertices"),
        proof("border loops", &["Mesh::build_boundary_loops"], loops::<5, 4>).within("four triangles on five vertices"),
        proof("surface and a triangle more", &["Mesh::add_triangle"], one_more).within("connected surfaces of at most 8 vertices and 8 faces"),
        proof("surface and a triangle less", &["Mesh::remove_triangle"], one_less).within("connected surfaces of at most 7 vertices, and of 8 vertices and at most 10 faces"),
        proof("surface and a batch less", &["Mesh::remove_triangles_deferred", "Mesh::weld_border_components_from", "Mesh::fix_vertices_outgoing_for"], two_less).within("connected surfaces of at most 8 vertices and 8 faces, one or two faces removed"),
        bounded("long histories", tr, history),
    ]
}
