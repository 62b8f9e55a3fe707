/// Proof helper: a node of value `v` with any enclosing ball, as if it were the root of some expression.
pub fn shadow_node(v: CgarRational, approx: CgarF64, ready: bool, ball: Ball, depth: u32) -> LazyExact {
    let (exact, b, a) = (OnceCell::new(), OnceCell::new(), OnceCell::new());
    if ready {
        let _ = exact.set(v.clone());
    }
    let _ = b.set(ball);
    let _ = a.set(approx);
    LazyExact(Arc::new(Node { kind: Kind::LeafExact(Arc::new(v)), approx: a, exact, ball: b, hashed_exact: OnceCell::new(), depth }))
}
