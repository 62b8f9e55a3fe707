// C08: the box tree, through its public operations.
use cgar::geometry::aabb_tree::AabbTree;
type Bx<const N: usize> = Aabb<S, N, Point<S, N>>;
type Tree<const N: usize> = AabbTree<S, N, Point<S, N>, usize>;
#[derive(Clone)]
struct B<const N: usize> { lo: [S; N], hi: [S; N] }
impl<const N: usize> B<N> {
    fn code(&self) -> Bx<N> { Aabb::new(Point { coords: self.lo.clone() }, Point { coords: self.hi.clone() }) }
    fn meets(&self, o: &B<N>) -> F { and((0..N).flat_map(|i| [le(&self.lo[i], &o.hi[i]), le(&o.lo[i], &self.hi[i])]).collect()) }
    fn same(&self, o: &Bx<N>) -> F { and((0..N).flat_map(|i| [eq(&self.lo[i], &o.min()[i]), eq(&self.hi[i], &o.max()[i])]).collect()) }
}
#[derive(Clone)]
struct Entry<const N: usize> { id: usize, b: B<N>, valid: bool }
fn answers<const N: usize>(t: &Tree<N>, es: &[Entry<N>], q: &B<N>) {
    let qb = q.code();
    let mut all = vec![];
    t.query(&qb, &mut all);
    let mut live = vec![];
    t.query_valid(&qb, &mut live);
    for e in es {
        let n = all.iter().filter(|x| ***x == e.id).count();
        ensure("an entry is found once exactly when its box meets the query", if n == 1 { e.b.meets(q) } else if n == 0 { not(e.b.meets(q)) } else { ff() });
        let n = live.iter().filter(|x| ***x == e.id).count();
        ensure("a valid entry is found once exactly when its box meets the query, an invalid one never", if n == 1 { and(vec![bool_(e.valid), e.b.meets(q)]) } else if n == 0 { or(vec![bool_(!e.valid), not(e.b.meets(q))]) } else { ff() });
    }
    ensure("nothing else is found", bool_(all.iter().chain(live.iter()).all(|x| es.iter().any(|e| e.id == **x))));
}
fn kill<const N: usize>(t: &mut Tree<N>, es: &mut [Entry<N>], id: usize) {
    let want = es.iter().filter(|e| e.valid && e.id == id).count();
    ensure("number of retired entries", bool_(t.invalidate(&id) == want));
    for e in es.iter_mut() { if e.id == id { e.valid = false; } }
}
fn built<const N: usize>(es: &[Entry<N>]) -> Tree<N> { Tree::build(es.iter().map(|e| (e.b.code(), e.id)).collect()) }
fn stored<const N: usize>(t: &Tree<N>, es: &[Entry<N>]) {
    for e in es { match t.get_aabb(e.id) { Some(b) => ensure("the box stored", e.b.same(b)), None => ensure("an entry is found", ff()) } }
    ensure("an unknown entry is not found", bool_(t.get_aabb(9999).is_none()));
}
fn compacted<const N: usize>(t: &mut Tree<N>, es: &[Entry<N>], qs: &[B<N>]) {
    let live: Vec<_> = es.iter().filter(|e| e.valid).cloned().collect();
    match t.compact() {
        None => ensure("empty only without valid entries", bool_(live.is_empty())),
        Some(c) => { ensure("compacted only with valid entries", bool_(!live.is_empty())); for q in qs { answers(&c, &live, q); } if !live.is_empty() { stored(&c, &live); } }
    }
}
/// all boxes with corners on a grid of K lines
fn grid<const N: usize>(k: i64) -> Vec<B<N>> {
    let iv: Vec<(i64, i64)> = (0..k).flat_map(|a| (a..k).map(move |b| (a, b))).collect();
    let n = iv.len();
    (0..n.pow(N as u32)).map(|mut i| {
        let c: Vec<(i64, i64)> = (0..N).map(|_| { let x = iv[i % n]; i /= n; x }).collect();
        B { lo: std::array::from_fn(|j| num(c[j].0)), hi: std::array::from_fn(|j| num(c[j].1)) }
    }).collect()
}
/// K entries built at once, then OPS operations, every query on the grid asked at the end
fn runs<const N: usize, const G: usize, const K: usize, const OPS: usize>() {
    let g = grid::<N>(G as i64);
    let mut es: Vec<Entry<N>> = (0..K).map(|i| Entry { id: 10 + i, b: g[choose(g.len())].clone(), valid: true }).collect();
    let mut t = built(&es);
    for s in 0..OPS {
        let c = choose(g.len() + es.len() + 1);
        if c < g.len() { t.insert(g[c].code(), 50 + s); es.push(Entry { id: 50 + s, b: g[c].clone(), valid: true }); }
        else { let id = if c - g.len() < es.len() { es[c - g.len()].id } else { 7 }; kill(&mut t, &mut es, id); }
    }
    for q in &g { answers(&t, &es, q); }
    stored(&t, &es);
    compacted(&mut t, &es, &g);
}
/// entries with the same data
fn twins<const N: usize, const G: usize>() {
    let g = grid::<N>(G as i64);
    let (a, b) = (&g[choose(g.len())], &g[choose(g.len())]);
    let mut t = Tree::build(vec![(a.code(), 7), (b.code(), 7)]);
    ensure("both retired", bool_(t.invalidate(&7) == 2));
    ensure("nothing left to retire", bool_(t.invalidate(&7) == 0));
    for q in &g {
        let qb = q.code();
        let mut v = vec![];
        t.query_valid(&qb, &mut v);
        ensure("none valid", bool_(v.is_empty()));
        let mut v = vec![];
        t.query(&qb, &mut v);
        ensure("as many as meet the query", match v.len() { 0 => and(vec![not(a.meets(q)), not(b.meets(q))]), 1 => or(vec![and(vec![a.meets(q), not(b.meets(q))]), and(vec![not(a.meets(q)), b.meets(q)])]), 2 => and(vec![a.meets(q), b.meets(q)]), _ => ff() });
    }
}
fn with_lookup<const N: usize, const G: usize, const K: usize>() {
    let g = grid::<N>(G as i64);
    let es: Vec<Entry<N>> = (0..K).map(|i| Entry { id: 10 + i, b: g[choose(g.len())].clone(), valid: true }).collect();
    let (t, l) = Tree::build_with_lookup(es.iter().map(|e| (e.b.code(), e.id)).collect());
    ensure("one box each", bool_(l.len() == K));
    for (e, b) in es.iter().zip(&l) { ensure("in the order given", e.b.same(b)); }
    for q in &g { answers(&t, &es, q); }
}
/// the same value computed in another way
fn other_way(x: &S) -> S {
    match choose(5) {
        0 => x.clone(),
        1 => &(x / &num(3)) * &num(3),
        2 => &(x + &ratio(1, 7)) - &ratio(1, 7),
        3 => { let b = big(60); &(x + &b) - &b }
        _ => &(&(x * &num(7)) / &num(49)) * &num(7),
    }
}
fn big(k: u32) -> S { let mut p = num(1); for _ in 0..k / 30 { p = &p * &num(1 << 30); } &p * &num(1 << (k % 30)) }
/// a coordinate from a small set, so that boxes touch, at some scale
fn coord(scale: &S, at: &S) -> S { other_way(&(&(scale * &ratio(choose(9) as i64 - 4, 1 + choose(3) as i64)) + at)) }
fn some_box<const N: usize>(scale: &S, at: &S) -> B<N> {
    let mut lo: [S; N] = std::array::from_fn(|_| coord(scale, at));
    let mut hi: [S; N] = std::array::from_fn(|_| coord(scale, at));
    for i in 0..N { if lo[i] > hi[i] { std::mem::swap(&mut lo[i], &mut hi[i]); } }
    B { lo, hi }
}
/// sequences of operations on larger trees
fn history<const N: usize>() {
    let scale = match choose(8) { 0..=3 => num(1), 4 => big(40), 5 => &num(1) / &big(40), 6 => big(1100), _ => &num(1) / &big(1100) };
    let at = match choose(4) { 0 | 1 => num(0), 2 => &scale * &big(20), _ => &scale * &big(53) };
    let k = 1 + choose(12);
    let mut es: Vec<Entry<N>> = (0..k).map(|i| Entry { id: 10 + i, b: some_box(&scale, &at), valid: true }).collect();
    let mut t = built(&es);
    for s in 0..choose(12) {
        match choose(4) {
            0 | 1 => { let b = some_box(&scale, &at); t.insert(b.code(), 50 + s); es.push(Entry { id: 50 + s, b, valid: true }); }
            2 => { let id = es[choose(es.len())].id; kill(&mut t, &mut es, id); }
            _ => if es.iter().any(|e| e.valid) && (t.needs_rebuild() || choose(3) == 0) {
                es.retain(|e| e.valid);
                match t.compact() { Some(c) => t = c, None => { ensure("compaction", ff()); return; } }
            }
        }
        answers(&t, &es, &some_box(&scale, &at));
    }
    for _ in 0..4 { answers(&t, &es, &some_box(&scale, &at)); }
    stored(&t, &es);
}
const Q: &[&str] = &["AabbTree::build", "AabbTree::build_median", "AabbTree::insert", "AabbTree::invalidate", "AabbTree::query", "AabbTree::query_impl", "AabbTree::query_valid", "AabbTree::query_valid_impl", "AabbTree::compact", "AabbTree::collect_valid", "AabbTree::get_aabb", "approx_from_exact", "approx_union", "intersects_approx", "choose_axis_approx", "compare_centers"];
pub fn list() -> Vec<Decl> {
    vec![
        proof("one entry, three operations, 1D", Q, runs::<1, 3, 1, 3>).within("one entry and three operations, one dimension, corners on three lines"),
        proof("two entries, two operations, 1D", Q, runs::<1, 3, 2, 2>).within("two entries and two operations, one dimension, corners on three lines"),
        proof("three entries, one operation, 1D", Q, runs::<1, 3, 3, 1>).within("three entries and one operation, one dimension, corners on three lines"),
        proof("one entry, two operations, 2D", Q, runs::<2, 2, 1, 2>).within("one entry and two operations, two dimensions, corners on two lines"),
        proof("three entries, 2D", Q, runs::<2, 2, 3, 0>).within("three entries, two dimensions, corners on two lines"),
        proof("one entry, one operation, 3D", Q, runs::<3, 2, 1, 1>).within("one entry and one operation, three dimensions, corners on two lines"),
        proof("equal data, 2D", &["AabbTree::invalidate", "AabbTree::query_valid"], twins::<2, 2>).within("two entries, two dimensions, corners on two lines"),
        proof("build with lookup, 2D", &["AabbTree::build_with_lookup"], with_lookup::<2, 2, 2>).within("two entries, two dimensions, corners on two lines"),
        bounded("histories, 1D", Q, history::<1>),
        bounded("histories, 2D", Q, history::<2>),
        bounded("histories, 3D", Q, history::<3>),
    ]
}
