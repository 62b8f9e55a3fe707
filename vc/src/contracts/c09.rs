// C09: flipping an edge, splitting an edge, splitting a face.
include!("patch.rs");
fn choose_off(n: usize) -> usize { choose(n) }
fn fixed<const N: usize>(k: usize) -> Vec<Point<S, N>> {
    let c: [[i64; 3]; 6] = [[0, 0, 0], [8, 0, 1], [2, 7, 3], [3, -6, 2], [20, 20, 20], [-9, 15, 4]];
    (0..k).map(|i| Point { coords: std::array::from_fn(|j| num(c[i][j])) }).collect()
}
/// the neighbourhood of an interior edge a-b with faces a b c and b a d
struct Diamond<const N: usize> { p: Patch<N>, v: [usize; 4], ab: usize, ba: usize, f: [usize; 2] }
fn diamond<const N: usize>(pts: &[Point<S, N>], ends: bool) -> Diamond<N> where M<N>: Dim<N> {
    let mut p = Patch::<N>::new(12, 8, pts);
    let v = [p.v(0), p.v(1), p.v(2), p.v(3)];
    let [a, b, c, d] = v;
    let (ab, ba) = p.edge(a, b);
    let (bc, cb) = p.edge(b, c);
    let (ca, ac) = p.edge(c, a);
    let (ad, da) = p.edge(a, d);
    let (db, bd) = p.edge(d, b);
    let f = [p.face([ab, bc, ca]), p.face([ba, ad, db])];
    for h in [cb, ac, da, bd] { p.far(h); }
    if ends { p.out_of(a, &[ab, ad, ac]); p.out_of(b, &[ba, bc, bd]); p.out_of(c, &[ca, cb]); p.out_of(d, &[db, da]); }
    else { for v in v { let n = p.name(); p.m.vertices[v].half_edge = Some(n); } }
    Diamond { p, v, ab, ba, f }
}
fn flipped<const N: usize>(d: &Diamond<N>, old: &M<N>, h: usize, r: Result<(), &'static str>, m: &M<N>) {
    let [a, b, c, e] = d.v;
    let _ = h;
    ensure("an edge that can be flipped is flipped", bool_(r.is_ok()));
    if r.is_ok() { replaced(old, m, &d.f, &[[c, a, e], [e, b, c]]); }
}
fn flip_links() {
    let d = diamond::<3>(&fixed(4), true);
    let mut m = d.p.m.clone();
    let h = [d.ab, d.ba][choose(2)];
    let r = m.flip_edge(h);
    flipped(&d, &d.p.m, h, r, &m);
}
fn flip_plane() {
    let d = diamond::<2>(&fixed(4), false);
    let mut m = d.p.m.clone();
    let h = [d.ab, d.ba][choose(2)];
    let r = m.flip_edge(h);
    flipped(&d, &d.p.m, h, r, &m);
}
/// any positions: refused without change exactly when a new face would be degenerate
fn flip_positions() {
    let a = pt::<3>("a");
    let pts = [a.clone(), off(&a, "b"), off(&a, "c"), off(&a, "d")];
    let mut p = Patch::<3>::new(12, 6, &[]);
    p.m.vertices = pts.iter().map(|x| cgar::mesh::vertex::Vertex::new(x.clone())).collect();
    p.vs = vec![0, 1, 2, 3];
    let (ab, ba) = p.edge(0, 1);
    let (bc, cb) = p.edge(1, 2);
    let (ca, ac) = p.edge(2, 0);
    let (ad, da) = p.edge(0, 3);
    let (db, bd) = p.edge(3, 1);
    let f = [p.face([ab, bc, ca]), p.face([ba, ad, db])];
    for h in [cb, ac, da, bd] { p.far_is(h, true); }
    for v in 0..4 { let n = p.name(); p.m.vertices[v].half_edge = Some(n); }
    let d = Diamond { p, v: [0, 1, 2, 3], ab, ba, f };
    let mut m = d.p.m.clone();
    let r = m.flip_edge(d.ab);
    let flat = |x: usize, y: usize, z: usize| parallel(&diff(&pts[y], &pts[x]), &diff(&pts[z], &pts[x]));
    let bad = or(vec![flat(0, 3, 2), flat(1, 2, 3)]);
    match r {
        Ok(()) => { ensure("flipped only if no new face is degenerate", not(bad)); replaced(&d.p.m, &m, &d.f, &[[2, 0, 3], [3, 1, 2]]); }
        Err(_) => { ensure("refused only if a new face would be degenerate", bad); ensure("a refused flip changes nothing", bool_(same_mesh(&d.p.m, &m))); }
    }
}
/// the other diagonal exists already
fn flip_duplicate() {
    let mut d = diamond::<3>(&fixed(4), false);
    let (c, e) = (d.v[2], d.v[3]);
    let (x, y) = d.p.edge(c, e);
    d.p.far_is(x, true);
    d.p.far(y);
    let mut m = d.p.m.clone();
    let r = m.flip_edge([d.ab, d.ba][choose(2)]);
    ensure("refused", bool_(r.is_err()));
    ensure("a refused flip changes nothing", bool_(same_mesh(&d.p.m, &m)));
}
/// two faces over the same corners
fn flip_pillow() {
    let mut p = Patch::<3>::new(8, 4, &fixed(3));
    let [a, b, c] = [p.v(0), p.v(1), p.v(2)];
    let (ab, ba) = p.edge(a, b);
    let (bc, cb) = p.edge(b, c);
    let (ca, ac) = p.edge(c, a);
    p.face([ab, bc, ca]);
    p.face([ba, ac, cb]);
    p.out_of(a, &[ab, ac]); p.out_of(b, &[bc, ba]); p.out_of(c, &[ca, cb]);
    let mut m = p.m.clone();
    let r = m.flip_edge([ab, bc, ca][choose(3)]);
    ensure("refused", bool_(r.is_err()));
    ensure("a refused flip changes nothing", bool_(same_mesh(&p.m, &m)));
}
fn flip_border() {
    let b = border::<3>(false);
    let mut m = b.p.m.clone();
    let r = m.flip_edge([b.ca, b.ac][choose(2)]);
    ensure("refused", bool_(r.is_err()));
    ensure("a refused flip changes nothing", bool_(same_mesh(&b.p.m, &m)));
}
fn flip_wrong() {
    let d = diamond::<3>(&fixed(4), false);
    let mut m = d.p.m.clone();
    let n = m.half_edges.len();
    let r = m.flip_edge([n, n + 7, 0, n - 1, usize::MAX][choose(5)]);
    ensure("refused", bool_(r.is_err()));
    ensure("a refused flip changes nothing", bool_(same_mesh(&d.p.m, &m)));
}
/// the neighbourhood of a border edge c-a of the face c a b; `prev` and `next` are its neighbours on the border
struct Border<const N: usize> { p: Patch<N>, v: [usize; 3], ca: usize, ac: usize, f: usize }
fn border<const N: usize>(ends: bool) -> Border<N> where M<N>: Dim<N> {
    let mut p = Patch::<N>::new(14, 6, &fixed(5));
    let v = [p.v(0), p.v(1), p.v(2)];
    let [a, b, c] = v;
    let (x, y) = (p.v(3), p.v(4));
    let (ca, ac) = p.edge(c, a);
    let (ab, ba) = p.edge(a, b);
    let (bc, cb) = p.edge(b, c);
    let f = p.face([ca, ab, bc]);
    // the border after ac leaves c: towards b along the face itself, or elsewhere
    let after = match choose(3) { 0 => cb, 1 => { let (h, t) = p.edge(c, x); p.far_is(t, true); p.far_is(cb, true); h } _ => { let (h, t) = p.edge(c, x); p.far_is(t, true); h } };
    // the border before ac comes to a: from b along the face itself, or from elsewhere
    let before = match choose(3) { 0 => ba, k => {
        let h = if choose(2) == 1 && after != cb { let (h, t) = p.edge(x, a); p.far_is(t, true); h } else { let (h, t) = p.edge(y, a); p.far_is(t, true); h };
        if k == 1 { p.far_is(ba, true); }
        h
    } };
    // a border of three edges closes up
    let close = choose(2) == 1 && { let e = &p.m.half_edges; e[after].vertex == e[e[before].twin].vertex };
    let e = &mut p.m.half_edges;
    e[ac].next = after; e[after].prev = ac; e[ac].prev = before; e[before].next = ac;
    if close { e[after].next = before; e[before].prev = after; }
    if ends { p.out_of(a, &[ac, ab]); p.out_of(b, &[bc, ba]); p.out_of(c, &[ca, cb, after]); }
    else { for v in v { let n = p.name(); p.m.vertices[v].half_edge = Some(n); } }
    for w in [x, y] { if p.m.half_edges.iter().any(|e| !e.removed && e.vertex == w) { let n = p.name(); p.m.vertices[w].half_edge = Some(n); } }
    Border { p, v, ca, ac, f }
}
fn tree<const N: usize>() -> AabbTree<S, N, Point<S, N>, usize> { let o = Point { coords: std::array::from_fn(|_| num(0)) }; AabbTree::build(vec![(Aabb::from_points(&o, &o), usize::MAX)]) }
fn at_new<const N: usize>(m: &M<N>, old: &M<N>, r: &SplitResult, p: &Point<S, N>) {
    ensure("one vertex is added", bool_(m.vertices.len() == old.vertices.len() + 1 && r.vertex == old.vertices.len()));
    if let Some(v) = m.vertices.get(r.vertex) { ensure("it lies at the given point", eqp(&v.position, p)); }
}
fn named<const N: usize>(m: &M<N>, r: &SplitResult, n: usize) {
    let mut g: Vec<usize> = r.new_faces.iter().copied().filter(|f| *f != usize::MAX).collect();
    ensure("the new faces are reported", bool_(g.len() == n && g.iter().all(|&f| f < m.faces.len() && !m.faces[f].removed && corners(m, f).is_some_and(|c| c.contains(&r.vertex)))));
    g.sort(); g.dedup();
    ensure("each once", bool_(g.len() == n));
}
fn somewhere<const N: usize>() -> Point<S, N> { let c = [5, 1, 3]; Point { coords: std::array::from_fn(|i| num(c[i])) } }
fn split_inner() {
    let d = diamond::<3>(&fixed(4), true);
    let mut m = d.p.m.clone();
    let q = somewhere();
    let h = [d.ab, d.ba][choose(2)];
    let [a, b, c, e] = d.v;
    match m.split_edge(&mut tree(), h, &q, false) {
        Ok(r) => {
            ensure("reported as an edge split", bool_(r.kind == SplitResultKind::SplitEdge));
            at_new(&m, &d.p.m, &r, &q);
            let w = r.vertex;
            replaced(&d.p.m, &m, &d.f, &[[a, w, c], [w, b, c], [b, w, e], [w, a, e]]);
            named(&m, &r, 4);
        }
        Err(_) => ensure("not refused", ff()),
    }
}
fn split_border() {
    let b = border::<3>(true);
    let mut m = b.p.m.clone();
    let q = somewhere();
    let [a, v, c] = b.v;
    match m.split_edge(&mut tree(), b.ca, &q, false) {
        Ok(r) => {
            ensure("reported as an edge split", bool_(r.kind == SplitResultKind::SplitEdge));
            at_new(&m, &b.p.m, &r, &q);
            let w = r.vertex;
            replaced(&b.p.m, &m, &[b.f], &[[a, v, w], [w, v, c]]);
            named(&m, &r, 2);
        }
        Err(_) => ensure("not refused", ff()),
    }
}
/// the point is a vertex already
fn split_reuse() {
    let d = diamond::<3>(&fixed(5), false);
    let mut m = d.p.m.clone();
    let k = choose(5);
    let q = d.p.m.vertices[k].position.clone();
    match m.split_edge(&mut tree(), d.ab, &q, false) {
        Ok(r) => ensure("reported as no split, with that vertex", bool_(r.kind == SplitResultKind::NoSplit && r.vertex == k)),
        Err(_) => {}
    }
    ensure("nothing changes", bool_(same_mesh(&d.p.m, &m)));
}
fn split_inside() {
    let mut p = Patch::<2>::new(6, 4, &fixed(3));
    let [a, b, c] = [p.v(0), p.v(1), p.v(2)];
    let (ab, ba) = p.edge(a, b);
    let (bc, cb) = p.edge(b, c);
    let (ca, ac) = p.edge(c, a);
    let f = p.face([ab, bc, ca]);
    for h in [ba, cb, ac] { p.far(h); }
    p.out_of(a, &[ab, ac]); p.out_of(b, &[bc, ba]); p.out_of(c, &[ca, cb]);
    let mut m = p.m.clone();
    let q = Point { coords: [num(3), num(2)] };
    match m.split_face(&mut tree(), f, &q, false) {
        Ok(r) => {
            ensure("reported as a face split", bool_(r.kind == SplitResultKind::SplitFace));
            at_new(&m, &p.m, &r, &q);
            let w = r.vertex;
            replaced(&p.m, &m, &[f], &[[a, b, w], [b, c, w], [c, a, w]]);
            named(&m, &r, 3);
        }
        Err(_) => ensure("not refused", ff()),
    }
}
/// a face tree that lists the faces seen completely, kept in step by the operation
fn listing<const N: usize>(m: &M<N>) -> AabbTree<S, N, Point<S, N>, usize> where M<N>: Boxes<N> {
    AabbTree::build((0..m.faces.len()).filter(|&f| !m.faces[f].removed && corners(m, f).is_some()).map(|f| (m.box_of(f), f)).collect())
}
trait Boxes<const N: usize> { fn box_of(&self, f: usize) -> Aabb<S, N, Point<S, N>>; }
impl Boxes<2> for M<2> { fn box_of(&self, f: usize) -> Aabb<S, 2, Point<S, 2>> { self.face_aabb(f) } }
impl Boxes<3> for M<3> { fn box_of(&self, f: usize) -> Aabb<S, 3, Point<S, 3>> { self.face_aabb(f) } }
fn lists<const N: usize>(tr: &AabbTree<S, N, Point<S, N>, usize>, m: &M<N>) where M<N>: Boxes<N> {
    let k = |x: i64| Point { coords: std::array::from_fn(|_| num(x)) };
    let mut got = Vec::new();
    tr.query_valid(&Aabb::from_points(&k(-100), &k(100)), &mut got);
    let mut got: Vec<usize> = got.into_iter().copied().collect();
    got.sort();
    let want: Vec<usize> = (0..m.faces.len()).filter(|&f| !m.faces[f].removed && corners(m, f).is_some()).collect();
    ensure("the tree lists exactly the live faces", bool_(got == want));
    // each under a box that meets the box of the face only at a corner probe
    for &f in &want {
        let b = m.box_of(f);
        for p in [b.min(), b.max()] {
            let mut near = Vec::new();
            tr.query_valid(&Aabb::from_points(p, p), &mut near);
            ensure("under its own box", bool_(near.into_iter().any(|x| *x == f)));
        }
    }
}
fn tree_inner() {
    let d = diamond::<3>(&fixed(4), false);
    let mut m = d.p.m.clone();
    let mut tr = listing(&m);
    let r = m.split_edge(&mut tr, [d.ab, d.ba][choose(2)], &somewhere(), true);
    ensure("not refused", bool_(r.is_ok()));
    lists(&tr, &m);
}
fn tree_border() {
    let b = border::<3>(false);
    let mut m = b.p.m.clone();
    let mut tr = listing(&m);
    let r = m.split_edge(&mut tr, b.ca, &somewhere(), true);
    ensure("not refused", bool_(r.is_ok()));
    lists(&tr, &m);
}
/// a single face and its far sides
fn single<const N: usize>() -> (Patch<N>, [usize; 3], usize) where M<N>: Dim<N> {
    let mut p = Patch::<N>::new(6, 4, &fixed(3));
    let [a, b, c] = [p.v(0), p.v(1), p.v(2)];
    let (ab, ba) = p.edge(a, b);
    let (bc, cb) = p.edge(b, c);
    let (ca, ac) = p.edge(c, a);
    let f = p.face([ab, bc, ca]);
    for h in [ba, cb, ac] { p.far(h); }
    p.out_of(a, &[ab, ac]); p.out_of(b, &[bc, ba]); p.out_of(c, &[ca, cb]);
    (p, [a, b, c], f)
}
fn inner_point<const N: usize>(p: &[Point<S, N>]) -> Point<S, N> {
    Point { coords: std::array::from_fn(|i| (&p[0].coords[i] + &(&p[1].coords[i] + &(&p[2].coords[i] + &p[2].coords[i]))) / num(4)) }
}
fn split_inside_n<const N: usize>(tr: &mut AabbTree<S, N, Point<S, N>, usize>, with: bool, go: impl Fn(&mut M<N>, &mut AabbTree<S, N, Point<S, N>, usize>, usize, &Point<S, N>, bool) -> Result<SplitResult, &'static str>, s: (Patch<N>, [usize; 3], usize)) -> M<N> {
    let (p, [a, b, c], f) = s;
    let mut m = p.m.clone();
    let q = inner_point(&fixed(3));
    match go(&mut m, tr, f, &q, with) {
        Ok(r) => {
            ensure("reported as a face split", bool_(r.kind == SplitResultKind::SplitFace));
            at_new(&m, &p.m, &r, &q);
            let w = r.vertex;
            replaced(&p.m, &m, &[f], &[[a, b, w], [b, c, w], [c, a, w]]);
            named(&m, &r, 3);
        }
        Err(_) => ensure("not refused", ff()),
    }
    m
}
fn split_inside_3() { split_inside_n::<3>(&mut tree(), false, |m, t, f, q, w| m.split_face(t, f, q, w), single()); }
fn tree_face_2() { let s = single::<2>(); let mut tr = listing(&s.0.m); let m = split_inside_n::<2>(&mut tr, true, |m, t, f, q, w| m.split_face(t, f, q, w), s); lists(&tr, &m); }
fn tree_face_3() { let s = single::<3>(); let mut tr = listing(&s.0.m); let m = split_inside_n::<3>(&mut tr, true, |m, t, f, q, w| m.split_face(t, f, q, w), s); lists(&tr, &m); }
/// splitting a face at a corner of it changes nothing
fn split_corner() {
    let (p, vs, f) = single::<3>();
    let mut m = p.m.clone();
    let v = vs[choose(3)];
    let q = p.m.vertices[v].position.clone();
    match m.split_face(&mut tree(), f, &q, false) {
        Ok(r) => ensure("reported as no split, with that vertex", bool_(r.kind == SplitResultKind::NoSplit && r.vertex == v)),
        Err(_) => {}
    }
    ensure("nothing changes", bool_(same_mesh(&p.m, &m)));
}
/// splitting a face at a point of one of its edges splits that edge
fn split_on_inner_edge() {
    let d = diamond::<3>(&fixed(4), false);
    let mut m = d.p.m.clone();
    let [a, b, c, e] = d.v;
    let q = Point { coords: std::array::from_fn(|i| (&(&m.vertices[a].position.coords[i] + &m.vertices[a].position.coords[i]) + &m.vertices[b].position.coords[i]) / num(3)) };
    let f = d.f[choose(2)];
    match m.split_face(&mut tree(), f, &q, false) {
        Ok(r) => {
            ensure("reported as an edge split", bool_(r.kind == SplitResultKind::SplitEdge));
            at_new(&m, &d.p.m, &r, &q);
            let w = r.vertex;
            replaced(&d.p.m, &m, &d.f, &[[a, w, c], [w, b, c], [b, w, e], [w, a, e]]);
            named(&m, &r, 4);
        }
        Err(_) => ensure("not refused", ff()),
    }
}
fn split_on_border_edge() {
    let b = border::<3>(false);
    let mut m = b.p.m.clone();
    let [a, v, c] = b.v;
    let q = Point { coords: std::array::from_fn(|i| (&m.vertices[a].position.coords[i] + &m.vertices[c].position.coords[i]) / num(2)) };
    match m.split_face(&mut tree(), b.f, &q, false) {
        Ok(r) => {
            ensure("reported as an edge split", bool_(r.kind == SplitResultKind::SplitEdge));
            at_new(&m, &b.p.m, &r, &q);
            let w = r.vertex;
            replaced(&b.p.m, &m, &[b.f], &[[a, v, w], [w, v, c]]);
            named(&m, &r, 2);
        }
        Err(_) => ensure("not refused", ff()),
    }
}
pub fn list() -> Vec<Decl> {
    vec![
        proof("flip: links", &["Mesh::flip_edge"], flip_links),
        proof("flip: links in the plane", &["Mesh::flip_edge"], flip_plane),
        proof("flip: positions", &["Mesh::flip_edge"], flip_positions),
        proof("flip: existing diagonal", &["Mesh::flip_edge"], flip_duplicate),
        proof("flip: same corners", &["Mesh::flip_edge"], flip_pillow),
        proof("flip: border", &["Mesh::flip_edge"], flip_border),
        proof("flip: not an edge", &["Mesh::flip_edge"], flip_wrong),
        proof("split of an inner edge", &["Mesh::split_edge"], split_inner),
        proof("split of a border edge", &["Mesh::split_edge"], split_border),
        proof("split at a vertex", &["Mesh::split_edge", "Mesh::get_or_insert_vertex"], split_reuse),
        proof("split of a face", &["Mesh::split_face", "Mesh::find_valid_face", "Mesh::location_on_face"], split_inside),
        proof("split of a face in space", &["Mesh::split_face", "Mesh::find_valid_face", "Mesh::location_on_face"], split_inside_3),
        proof("split of a face at a corner", &["Mesh::split_face", "Mesh::find_valid_face"], split_corner),
        proof("split of a face on an inner edge", &["Mesh::split_face", "Mesh::split_edge"], split_on_inner_edge),
        proof("split of a face on a border edge", &["Mesh::split_face", "Mesh::split_edge"], split_on_border_edge),
        proof("split of an inner edge: tree", &["Mesh::split_edge", "AabbTree::insert", "AabbTree::invalidate"], tree_inner),
        proof("split of a border edge: tree", &["Mesh::split_edge", "AabbTree::insert", "AabbTree::invalidate"], tree_border),
        proof("split of a face in the plane: tree", &["Mesh::split_face", "AabbTree::insert", "AabbTree::invalidate"], tree_face_2),
        proof("split of a face in space: tree", &["Mesh::split_face", "AabbTree::insert", "AabbTree::invalidate"], tree_face_3),
    ]
}
