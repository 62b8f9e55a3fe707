// C11: vertex insertion, duplicates, unused vertices.
include!("patch.rs");
include!("surfaces.rs");
fn choose_off(_: usize) -> usize { 0 }
/// the merge distance of the library, one millionth, with room for its rounding
fn near(a: &S, b: &S) -> F { let d = &(a - b); let t = ratio(1_000_000_001, 1_000_000_000_000_000); and(vec![le(d, &t), le(&-&t, d)]) }
fn nearp<const N: usize>(a: &Point<S, N>, b: &Point<S, N>) -> F { and((0..N).map(|i| near(&a.coords[i], &b.coords[i])).collect()) }
trait Ins<const N: usize> { fn ins(&mut self, p: &Point<S, N>) -> (usize, bool); }
impl Ins<2> for M<2> { fn ins(&mut self, p: &Point<S, 2>) -> (usize, bool) { self.get_or_insert_vertex(p) } }
impl Ins<3> for M<3> { fn ins(&mut self, p: &Point<S, 3>) -> (usize, bool) { self.get_or_insert_vertex(p) } }
fn insert<const N: usize>(m: &mut M<N>, p: &Point<S, N>) -> usize where M<N>: Ins<N> { insert_at(m, p, false) }
/// far: so far out that two ways to compute a coordinate may round to doubles that are cells apart
fn insert_at<const N: usize>(m: &mut M<N>, p: &Point<S, N>, far: bool) -> usize where M<N>: Ins<N> {
    let old: Vec<Point<S, N>> = m.vertices.iter().map(|v| v.position.clone()).collect();
    let (v, reused) = m.ins(p);
    ensure("the vertex exists", bool_(v < m.vertices.len()));
    if v >= m.vertices.len() { return v; }
    for (i, q) in old.iter().enumerate() { ensure("other vertices stay", eqp(&m.vertices[i].position, q)); }
    if reused {
        ensure("a reused vertex was there", bool_(v < old.len() && m.vertices.len() == old.len()));
        ensure("a reused vertex is within the merge distance", nearp(&m.vertices[v].position, p));
    } else {
        ensure("a new vertex is added", bool_(v == old.len() && m.vertices.len() == old.len() + 1));
        ensure("a new vertex lies at the given position", eqp(&m.vertices[v].position, p));
        for q in &old { if far { break; } ensure("a vertex at the position is reused", not(eqp(q, p))); }
    }
    v
}
/// K positions out of a set, then all of them again
fn sequence<const N: usize, const K: usize>(pts: &[Point<S, N>]) where M<N>: Ins<N> + Dim<N> {
    let mut m = M::<N>::fresh();
    let mut got = vec![];
    for _ in 0..K { let p = &pts[choose(pts.len())]; let v = insert(&mut m, p); got.push((p, v)); }
    let n = m.vertices.len();
    for (p, v) in &got { ensure("the same vertex again", bool_(insert(&mut m, p) == *v)); }
    ensure("nothing new", bool_(m.vertices.len() == n));
}
/// around the borders of the lookup cells: multiples of 0.3 millionths, and far away
fn line<const N: usize>(axis: usize) -> Vec<Point<S, N>> {
    let mut r: Vec<S> = (-4..=4).map(|k| ratio(3 * k, 10_000_000)).collect();
    r.extend([ratio(-9, 10_000_000_000), num(5), &num(5) + &ratio(1, 1_000_000_000_000), num(-5)]);
    r.into_iter().map(|x| Point { coords: std::array::from_fn(|i| if i == axis { x.clone() } else { num(i as i64) }) }).collect()
}
fn two_axis<const N: usize, const A: usize>() where M<N>: Ins<N> + Dim<N> { sequence::<N, 3>(&line(A)) }
/// positions that differ in several coordinates
fn corners_of_cells() {
    let c = [ratio(-1, 10_000_000), num(0), ratio(9, 10_000_000), ratio(2, 1_000_000)];
    let pts: Vec<Point<S, 3>> = (0..64usize).map(|i| Point { coords: [c[i & 3].clone(), c[i >> 2 & 3].clone(), c[i >> 4].clone()] }).collect();
    sequence::<3, 2>(&pts)
}
/// positions far from each other, of any magnitude: all kept apart
fn apart<const N: usize>() where M<N>: Ins<N> + Dim<N> {
    let n = 1 + choose(8);
    let mut m = M::<N>::fresh();
    let k = choose(5);
    let scale = [num(1), ratio(1, 1000), num(40_000), num(1_000_000_000), &num(1_000_000_000_000) * &num(1_000_000_000)][k].clone();
    let far = k >= 3;
    let mut got: Vec<(Point<S, N>, usize)> = vec![];
    // positions a multiple of the period of the lookup apart
    let period = &ratio(9, 10_000_000) * &(&num(1 << 21) * &num(1 << 21));
    for _ in 0..n {
        if !got.is_empty() && choose(3) == 0 {
            let mut p = got[choose(got.len())].0.clone();
            let i = choose(N);
            p.coords[i] = &p.coords[i] + &(&period * &num(choose(5) as i64 - 2));
            let v = insert_at(&mut m, &p, far);
            got.push((p, v));
            continue;
        }
        let p: Point<S, N> = Point { coords: std::array::from_fn(|_| &scale * &ratio(choose(41) as i64 - 20, 1 + choose(6) as i64)) };
        let v = insert_at(&mut m, &p, far);
        got.push((p, v));
    }
    for (p, v) in &got { for (q, w) in &got { if !far { ensure("one vertex for one position", imp(eqp(p, q), bool_(v == w))); } ensure("positions apart have different vertices", imp(bool_(v == w), nearp(p, q))); } }
}
/// any doubles, near one another
fn close<const N: usize>() where M<N>: Ins<N> + Dim<N> {
    let mut m = M::<N>::fresh();
    let at: [S; N] = std::array::from_fn(|_| [num(0), ratio(choose(2000) as i64 - 1000, 1 + choose(77) as i64), num(choose(99999) as i64)][choose(3)].clone());
    let mut got: Vec<(Point<S, N>, usize)> = vec![];
    for _ in 0..2 + choose(8) {
        let p: Point<S, N> = if !got.is_empty() && choose(4) == 0 { got[choose(got.len())].0.clone() } else { Point { coords: std::array::from_fn(|i| &at[i] + &ratio(choose(61) as i64 - 30, 10_000_000)) } };
        let v = insert(&mut m, &p);
        got.push((p, v));
    }
    for (p, v) in &got { ensure("the same vertex again", bool_(insert(&mut m, p) == *v)); }
}
/// corner positions of the faces, starting at the first corner of each
fn shape(m: &M<3>) -> Vec<[Point<S, 3>; 3]> { (0..m.faces.len()).filter(|&f| !m.faces[f].removed).map(|f| m.face_vertices(f).map(|v| m.vertices[v].position.clone())).collect() }
fn same_shape(a: &[[Point<S, 3>; 3]], b: &[[Point<S, 3>; 3]]) {
    ensure("as many faces", bool_(a.len() == b.len()));
    if a.len() == b.len() { for (x, y) in a.iter().zip(b) { ensure("corners of a face", or((0..3).map(|r| and((0..3).map(|i| eqp(&x[i], &y[(i + r) % 3])).collect())).collect())); } }
}
/// unused vertices among the vertices of a surface, some faces removed
fn unused() {
    let all = surfaces();
    let few = all.iter().take_while(|t| t.len() <= 6).count();
    let ts = &all[choose(few)];
    let n = 1 + ts.iter().flatten().max().unwrap();
    let gap = choose(3);
    let mut m = M::<3>::fresh();
    let mut ids = vec![];
    for i in 0..n { if i % 2 == gap { m.vertex(spot(40 + i)); } ids.push(m.vertex(spot(i))); }
    let fs: Vec<usize> = ts.iter().map(|t| m.add_triangle(ids[t[0]], ids[t[1]], ids[t[2]])).collect();
    let gone = choose(fs.len() + 1);
    if gone < fs.len() { m.remove_triangle(fs[gone]); }
    let old = shape(&m);
    m.remove_unused_vertices();
    same_shape(&old, &shape(&m));
    say("consistent connectivity", inconsistency(&m, None));
    ensure("every vertex is used", bool_((0..m.vertices.len()).all(|v| (0..m.faces.len()).any(|f| !m.faces[f].removed && m.face_vertices(f).contains(&v)))));
}
/// triangles with corners of their own
fn soup() {
    let all = surfaces();
    let few = all.iter().take_while(|t| t.len() <= 6).count();
    let ts = &all[choose(few)];
    let own = choose(2) == 0;
    // near but not equal
    let apart = choose(2) == 1;
    let spot = |c: usize| { let mut p = spot(c); if apart && c > 2 { p = spot(c - 1); p.coords[c % 3] = &p.coords[c % 3] + &ratio(c as i64, 50_000_000); } p };
    let mut m = M::<3>::fresh();
    let mut shared = BTreeMap::new();
    for (k, t) in ts.iter().enumerate() {
        let v = t.map(|c| if own || k % 2 == 0 { m.vertex(spot(c)) } else { *shared.entry(c).or_insert_with(|| m.vertex(spot(c))) });
        m.add_triangle(v[0], v[1], v[2]);
    }
    let old = shape(&m);
    let before = m.vertices.len();
    let k = m.remove_duplicate_vertices();
    same_shape(&old, &shape(&m));
    ensure("as many vertices as reported are gone", bool_(m.vertices.len() + k == before));
    for i in 0..m.vertices.len() { for j in 0..i { ensure("no duplicates are left", not(eqp(&m.vertices[i].position, &m.vertices[j].position))); } }
    // the vertices left are found again
    for i in 0..m.vertices.len() { let p = m.vertices[i].position.clone(); let (v, old) = m.get_or_insert_vertex(&p); ensure("a vertex is found at its position", and(vec![bool_(old && (apart || v == i)), nearp(&m.vertices[v].position, &p)])); }
    m.remove_unused_vertices();
    same_shape(&old, &shape(&m));
}
const G: &[&str] = &["Mesh::get_or_insert_vertex", "Mesh::position_to_hash_key", "Mesh::pack_key3", "are_equal", "are_approximately_equal"];
pub fn list() -> Vec<Decl> {
    vec![
        proof("insertions along the first axis, 2D", G, two_axis::<2, 0>).within("three positions of thirteen around the borders of cells"),
        proof("insertions along the second axis, 2D", G, two_axis::<2, 1>).within("three positions of thirteen around the borders of cells"),
        proof("insertions along the third axis, 3D", G, two_axis::<3, 2>).within("three positions of thirteen around the borders of cells"),
        proof("insertions at the corners of cells, 3D", G, corners_of_cells).within("two of 64 positions around the corner of cells"),
        proof("unused vertices", &["Mesh::remove_unused_vertices"], unused).within("connected surfaces of at most 6 faces, one face removed"),
        proof("duplicates", &["Mesh::remove_duplicate_vertices"], soup).within("connected surfaces of at most 6 faces"),
        bounded("positions apart, 2D", G, apart::<2>),
        bounded("positions apart, 3D", G, apart::<3>),
        bounded("positions close by, 2D", G, close::<2>),
        bounded("positions close by, 3D", G, close::<3>),
    ]
}
