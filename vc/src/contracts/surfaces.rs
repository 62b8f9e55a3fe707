// All connected oriented surfaces, with or without border, of at most 7 vertices, and those of 8 vertices and at most
// 10 faces, up to the names of the vertices (tools/surfaces.rs lists them).
fn surfaces() -> &'static Vec<Vec<[usize; 3]>> {
    static S: std::sync::OnceLock<Vec<Vec<[usize; 3]>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        include_str!("surfaces.txt").lines().map(|l| l.split(' ').map(|t| { let b: Vec<usize> = t.bytes().map(|b| (b - b'0') as usize).collect(); [b[0], b[1], b[2]] }).collect()).collect()
    })
}
fn dirs(t: &[usize; 3]) -> [(usize, usize); 3] { [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])] }
/// positions in general position
fn spot(i: usize) -> Point<S, 3> { let k = i as i64; Point { coords: [num(k), num(k * k), num(k * k * k)] } }
fn build(ts: &[[usize; 3]]) -> M<3> {
    let mut m = M::<3>::fresh();
    for i in 0..1 + ts.iter().flatten().max().unwrap() { m.vertex(spot(i)); }
    for t in ts { m.add_triangle(t[0], t[1], t[2]); }
    m
}
/// May the edge u v be collapsed without gluing anything?  The link condition, with the border as one more vertex.
fn collapsible(ts: &[[usize; 3]], u: usize, v: usize) -> bool {
    const W: usize = usize::MAX;
    let d: BTreeSet<(usize, usize)> = ts.iter().flat_map(|t| dirs(t)).collect();
    let mut all: Vec<[usize; 3]> = ts.to_vec();
    all.extend(d.iter().filter(|e| !d.contains(&(e.1, e.0))).map(|e| [e.1, e.0, W]));
    let link = |x: usize| -> (BTreeSet<usize>, BTreeSet<[usize; 2]>) {
        let es: BTreeSet<[usize; 2]> = all.iter().filter(|t| t.contains(&x)).map(|t| { let mut e: Vec<usize> = t.iter().copied().filter(|y| *y != x).collect(); e.sort(); [e[0], e[1]] }).collect();
        (es.iter().flatten().copied().collect(), es)
    };
    let (a, b) = (link(u), link(v));
    let both: BTreeSet<usize> = all.iter().filter(|t| t.contains(&u) && t.contains(&v)).flatten().copied().filter(|x| *x != u && *x != v).collect();
    a.0.intersection(&b.0).copied().collect::<BTreeSet<_>>() == both && a.1.is_disjoint(&b.1)
}
