use cgar::geometry::matrix::Matrix;
use cgar::geometry::vector::{vector_cross, Cross2};

fn vec_<const N: usize>(n: &str) -> Vector<S, N> { Vector(pt::<N>(n)) }
fn eqa<const N: usize>(a: &[S; N], b: &[S; N]) -> F { and((0..N).map(|i| eq(&a[i], &b[i])).collect()) }
fn mat<const R: usize, const C: usize>(n: &str) -> Matrix<S, R, C> { Matrix(std::array::from_fn(|i| pt::<C>(&format!("{n}{i}")).coords)) }
fn eqm<const R: usize, const C: usize>(a: &Matrix<S, R, C>, b: impl Fn(usize, usize) -> S) -> F {
    let mut c = vec![];
    for i in 0..R { for j in 0..C { c.push(eq(&a.0[i][j], &b(i, j))); } }
    and(c)
}
fn same<const N: usize>(a: &Vector<S, N>, b: impl Fn(usize) -> S) -> F { and((0..N).map(|i| eq(&a.0.coords[i], &b(i))).collect()) }
fn samep<const N: usize>(a: &Point<S, N>, b: impl Fn(usize) -> S) -> F { and((0..N).map(|i| eq(&a.coords[i], &b(i))).collect()) }

fn vector_ops<const N: usize>() where Vector<S, N>: VectorOps<S, N> {
    let (a, b) = (vec_::<N>("a"), vec_::<N>("b"));
    let s = var("s");
    let (x, y) = (&a.0.coords, &b.0.coords);
    ensure("sum", same(&(&a + &b), |i| &x[i] + &y[i]));
    ensure("owned sum", same(&(a.clone() + b.clone()), |i| &x[i] + &y[i]));
    ensure("difference", same(&(&a - &b), |i| &x[i] - &y[i]));
    ensure("owned difference", same(&(a.clone() - b.clone()), |i| &x[i] - &y[i]));
    ensure("negation", same(&(-a.clone()), |i| &num(0) - &x[i]));
    ensure("scaling", same(&a.scale(&s), |i| &x[i] * &s));
    ensure("dot product", eq(&a.dot(&b), &dot_(x, y)));
    ensure("squared norm", eq(&a.norm2(), &dot_(x, x)));
    let mut c = a.clone();
    c.axpy(&s, &b);
    ensure("axpy", same(&c, |i| &x[i] + &(&s * &y[i])));
    ensure("zero vector", same(&Vector::<S, N>::zero(), |_| num(0)));
    ensure("default vector", same(&Vector::<S, N>::default(), |_| num(0)));
    ensure("indexing", same(&a, |i| a[i].clone()));
    ensure("point conversion", same(&Vector::from(Point::from(a.clone())), |i| x[i].clone()));
}
fn vector_lerp<const N: usize>() where Vector<S, N>: VectorOps<S, N> {
    let (a, b) = (vec_::<N>("a"), vec_::<N>("b"));
    let s = var("s");
    ensure("interpolation", same(&a.lerp(&b, &s), |i| &a[i] + &(&s * &(&b[i] - &a[i]))));
}
fn vector_cmp<const N: usize>() {
    let (a, b) = (vec_::<N>("a"), vec_::<N>("b"));
    ensure("is_zero iff all coordinates are zero", is_true_iff(a.is_zero(), and((0..N).map(|i| zero(&a[i])).collect())));
    ensure("equality iff coordinate-wise", is_true_iff(a == b, eqp(&a.0, &b.0)));
    ensure("lexicographic order", lex(a.partial_cmp(&b), &a.0.coords, &b.0.coords));
    ensure("points: equality iff coordinate-wise", is_true_iff(a.0 == b.0, eqp(&a.0, &b.0)));
    ensure("points: lexicographic order", lex(a.0.partial_cmp(&b.0), &a.0.coords, &b.0.coords));
    ensure("points: is_zero iff all coordinates are zero", is_true_iff(a.0.is_zero(), and((0..N).map(|i| zero(&a[i])).collect())));
}
/// r is the lexicographic comparison of x with y
fn lex(r: Option<std::cmp::Ordering>, x: &[S], y: &[S]) -> F {
    let less = |x: &[S], y: &[S]| or((0..x.len()).map(|k| { let mut c: Vec<F> = (0..k).map(|i| eq(&x[i], &y[i])).collect(); c.push(lt(&x[k], &y[k])); and(c) }).collect());
    match r {
        Some(std::cmp::Ordering::Less) => less(x, y),
        Some(std::cmp::Ordering::Greater) => less(y, x),
        Some(std::cmp::Ordering::Equal) => and((0..x.len()).map(|i| eq(&x[i], &y[i])).collect()),
        None => ff(),
    }
}
fn cross2() {
    let (a, b) = (vec_::<2>("a"), vec_::<2>("b"));
    ensure("cross product", eq(&Cross2::cross(&a, &b), &det2(&a.0.coords, &b.0.coords)));
}
fn cross3() {
    let (a, b) = (vec_::<3>("a"), vec_::<3>("b"));
    let c = cross_(&a.0.coords, &b.0.coords);
    ensure("cross product", same(&Cross3::cross(&a, &b), |i| c[i].clone()));
    ensure("cross product (free function)", same(&vector_cross(&a, &b), |i| c[i].clone()));
}
fn perpendicular<const N: usize>() where Vector<S, N>: VectorOps<S, N> {
    let a = vec_::<N>("a");
    require!(not(and((0..N).map(|i| zero(&a[i])).collect())));
    let p = a.any_perpendicular();
    ensure("orthogonal", zero(&dot_(&a.0.coords, &p.0.coords)));
    ensure("non-zero", not(and((0..N).map(|i| zero(&p[i])).collect())));
}
fn point_ops<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = Vector<S, N>> {
    let (a, b) = (pt::<N>("a"), pt::<N>("b"));
    let v = vec_::<N>("v");
    let (x, y) = (&a.coords, &b.coords);
    ensure("sum", samep(&(&a + &b), |i| &x[i] + &y[i]));
    ensure("owned sum", samep(&(a.clone() + b.clone()), |i| &x[i] + &y[i]));
    ensure("difference", samep(&(&a - &b), |i| &x[i] - &y[i]));
    ensure("owned difference", samep(&(a.clone() - b.clone()), |i| &x[i] - &y[i]));
    ensure("sub", samep(&PointOps::sub(&a, &b), |i| &x[i] - &y[i]));
    ensure("as_vector", same(&a.as_vector(), |i| x[i].clone()));
    ensure("add_vector", samep(&a.add_vector(&v), |i| &x[i] + &v[i]));
    ensure("vector_to", same(&a.vector_to(&b), |i| &y[i] - &x[i]));
    ensure("midpoint", samep(&a.midpoint(&b), |i| &(&x[i] + &y[i]) * &ratio(1, 2)));
    ensure("zero point", samep(&Point::<S, N>::zero(), |_| num(0)));
    ensure("default point", samep(&Point::<S, N>::default(), |_| num(0)));
}
fn point_conv() {
    let (a, b) = (pt::<2>("a"), pt::<3>("b"));
    ensure("as_vector_2", same(&a.as_vector_2(), |i| a.coords[i].clone()));
    ensure("as_point_2", samep(&a.as_point_2(), |i| a.coords[i].clone()));
    ensure("as_vector_3", same(&b.as_vector_3(), |i| b.coords[i].clone()));
    ensure("as_point_3", samep(&b.as_point_3(), |i| b.coords[i].clone()));
}
fn matrix_linear<const R: usize, const C: usize>() {
    let (a, b) = (mat::<R, C>("a"), mat::<R, C>("b"));
    let s = var("s");
    ensure("sum", eqm(&(&a + &b), |i, j| &a.0[i][j] + &b.0[i][j]));
    ensure("owned sum", eqm(&(a.clone() + b.clone()), |i, j| &a.0[i][j] + &b.0[i][j]));
    ensure("difference", eqm(&(&a - &b), |i, j| &a.0[i][j] - &b.0[i][j]));
    ensure("owned difference", eqm(&(a.clone() - b.clone()), |i, j| &a.0[i][j] - &b.0[i][j]));
    ensure("negation", eqm(&(-a.clone()), |i, j| &num(0) - &a.0[i][j]));
    ensure("scaling", eqm(&a.scale(&s), |i, j| &s * &a.0[i][j]));
    ensure("interpolation", eqm(&a.lerp(&b, &s), |i, j| &a.0[i][j] + &(&s * &(&b.0[i][j] - &a.0[i][j]))));
    ensure("transposition", eqm(&a.transpose(), |i, j| a.0[j][i].clone()));
    ensure("from rows", eqm(&Matrix::from_rows(a.0.clone()), |i, j| a.0[i][j].clone()));
    ensure("from columns", eqm(&Matrix::<S, C, R>::from_cols(a.0.clone()), |i, j| a.0[j][i].clone()));
    ensure("splat", eqm(&Matrix::<S, R, C>::splat(s.clone()), |_, _| s.clone()));
    ensure("zero", eqm(&Matrix::<S, R, C>::zero(), |_, _| num(0)));
    for i in 0..R { ensure("row", same(&a.row(i), |j| a.0[i][j].clone())); }
    for j in 0..C { ensure("column", same(&a.col(j), |i| a.0[i][j].clone())); }
    let (u, v) = (vec_::<R>("u"), vec_::<C>("v"));
    ensure("outer product", eqm(&Matrix::outer(&u, &v), |i, j| &u[i] * &v[j]));
    let w = &a * &v;
    ensure("matrix-vector product", same(&w, |i| dot_(&a.0[i], &v.0.coords)));
    ensure("owned matrix-vector product", same(&(a.clone() * v.clone()), |i| dot_(&a.0[i], &v.0.coords)));
}
fn matrix_cmp() {
    let (a, b) = (mat::<2, 2>("a"), mat::<2, 2>("b"));
    let fl = |m: &Matrix<S, 2, 2>| -> Vec<S> { m.0.iter().flatten().cloned().collect() };
    let same = eqm(&a, |i, j| b.0[i][j].clone());
    ensure("equality iff entry-wise", is_true_iff(a == b, same));
    ensure("lexicographic order", lex(a.partial_cmp(&b), &fl(&a), &fl(&b)));
    ensure("is_zero", is_true_iff(a.is_zero(), and(fl(&a).iter().map(zero).collect())));
}
fn matrix_product<const R: usize, const C: usize, const K: usize>() {
    let (a, b) = (mat::<R, C>("a"), mat::<C, K>("b"));
    let spec = |i: usize, k: usize| { let mut s = num(0); for j in 0..C { s = s + &a.0[i][j] * &b.0[j][k]; } s };
    ensure("matrix product", eqm(&(&a * &b), spec));
    ensure("owned matrix product", eqm(&(a.clone() * b.clone()), spec));
}
fn identity<const N: usize>() {
    ensure("identity", eqm(&Matrix::<S, N, N>::identity(), |i, j| num(if i == j { 1 } else { 0 })));
}
/// sum over permutations
fn leibniz(m: &[&[S]]) -> S {
    fn go(m: &[&[S]], row: usize, used: &mut Vec<usize>) -> S {
        if row == m.len() { return num(1); }
        let mut s = num(0);
        for c in 0..m.len() {
            if used.contains(&c) { continue; }
            let inv = used.iter().filter(|&&u| u > c).count() as i64;
            used.push(c);
            let t = &m[row][c] * &go(m, row + 1, used);
            used.pop();
            s = if inv % 2 == 0 { &s + &t } else { &s - &t };
        }
        s
    }
    go(m, 0, &mut vec![])
}
fn determinant<const N: usize>() {
    let a = mat::<N, N>("a");
    let rows: Vec<&[S]> = a.0.iter().map(|r| &r[..]).collect();
    ensure("determinant is the permutation sum", eq(&a.det(), &leibniz(&rows)));
}
fn inverse2() {
    let a = mat::<2, 2>("a");
    let d = det2(&a.0[0], &a.0[1]);
    match a.inverse() {
        None => ensure("no inverse only when singular", zero(&d)),
        Some(m) => {
            ensure("inverse only when non-singular", nonzero(&d));
            let id = |i: usize, j: usize| num(if i == j { 1 } else { 0 });
            ensure("right inverse", and((0..4).map(|k| { let (i, j) = (k / 2, k % 2); let mut s = num(0); for l in 0..2 { s = s + &a.0[i][l] * &m.0[l][j]; } eq(&s, &id(i, j)) }).collect()));
        }
    }
}
fn inverse3() {
    let a = mat::<3, 3>("a");
    let d = det3(&a.0[0], &a.0[1], &a.0[2]);
    match a.inverse() {
        None => ensure("no inverse only when singular", zero(&d)),
        Some(m) => {
            ensure("inverse only when non-singular", nonzero(&d));
            let id = |i: usize, j: usize| num(if i == j { 1 } else { 0 });
            ensure("right inverse", and((0..9).map(|k| { let (i, j) = (k / 3, k % 3); let mut s = num(0); for l in 0..3 { s = s + &a.0[i][l] * &m.0[l][j]; } eq(&s, &id(i, j)) }).collect()));
        }
    }
}
fn on_plane<const N: usize>(pl: &Plane<S, N>, p: &Point<S, N>) -> F { zero(&(&dot_(&pl.normal.0.coords, &p.coords) + &pl.d)) }
fn zero_arr<const N: usize>(a: &[S; N]) -> F { and(a.iter().map(zero).collect()) }
fn plane3() {
    let (a, b, c) = (pt::<3>("a"), pt::<3>("b"), pt::<3>("c"));
    let pl = Plane::<S, 3>::from_points([&a, &b, &c]);
    ensure("contains the first point", on_plane(&pl, &a));
    ensure("contains the second point", on_plane(&pl, &b));
    ensure("contains the third point", on_plane(&pl, &c));
    // the plane is proper exactly when the points are not collinear, and oriented counter-clockwise
    let n = cross_(&diff(&b, &a), &diff(&c, &a));
    ensure("normal vanishes only for collinear points", imp(zero_arr(&pl.normal.0.coords), zero_arr(&n)));
    ensure("normal points to the counter-clockwise side", imp(not(zero_arr(&n)), pos(&dot_(&pl.normal.0.coords, &n))));
}
fn plane2() {
    let (a, b) = (pt::<2>("a"), pt::<2>("b"));
    let pl = Plane::<S, 2>::from_points([&a, &b]);
    ensure("contains the first point", on_plane(&pl, &a));
    ensure("contains the second point", on_plane(&pl, &b));
    ensure("normal vanishes only for equal points", imp(zero_arr(&pl.normal.0.coords), eqp(&a, &b)));
}
fn some_plane<const N: usize>() -> Option<Plane<S, N>> where Vector<S, N>: VectorOps<S, N> {
    let n = vec_::<N>("n");
    if !assume_(not(zero_arr(&n.0.coords))) { return None; }
    Some(Plane::new(n, var("d")))
}
fn plane_new<const N: usize>() where Vector<S, N>: VectorOps<S, N> {
    let (n, d) = (vec_::<N>("n"), var("d"));
    let pl = Plane::new(n.clone(), d.clone());
    ensure("keeps the coefficients", and(vec![eqp(&pl.normal.0, &n.0), eq(&pl.d, &d)]));
}
fn plane_origin<const N: usize>() where Plane<S, N>: PlaneOps<S, N>, Vector<S, N>: VectorOps<S, N> {
    let Some(pl) = some_plane::<N>() else { return };
    ensure("origin lies on the plane", on_plane(&pl, &pl.origin()));
}
fn plane_basis<const N: usize>() where Plane<S, N>: PlaneOps<S, N>, Vector<S, N>: VectorOps<S, N> {
    let Some(pl) = some_plane::<N>() else { return };
    let (u, v) = pl.basis();
    let (n, u, v) = (&pl.normal.0.coords, &u.0.coords, &v.0.coords);
    ensure("first basis vector is non-zero", not(zero_arr(u)));
    ensure("second basis vector is non-zero", not(zero_arr(v)));
    ensure("first basis vector is orthogonal to the normal", zero(&dot_(n, u)));
    ensure("basis vectors are orthogonal", zero(&dot_(u, v)));
    if N == 3 { ensure("second basis vector is orthogonal to the normal", zero(&dot_(n, v))); }
}
fn plane_canonical<const N: usize>() where Vector<S, N>: VectorOps<S, N> {
    let Some(pl) = some_plane::<N>() else { return };
    let c = pl.canonicalized();
    let ext = |p: &Plane<S, N>| -> Vec<S> { let mut v: Vec<S> = p.normal.0.coords.to_vec(); v.push(p.d.clone()); v };
    let (x, y) = (ext(&pl), ext(&c));
    let mut prop = vec![];
    for i in 0..=N { for j in i + 1..=N { prop.push(eq(&(&x[i] * &y[j]), &(&x[j] * &y[i]))); } }
    ensure("same plane", and(prop));
    ensure("canonical normal is non-zero", not(zero_arr(&c.normal.0.coords)));
    let lead = (0..N).map(|k| { let mut g: Vec<F> = (0..k).map(|i| zero(&y[i])).collect(); g.push(nonzero(&y[k])); imp(and(g), eq(&y[k], &num(1))) }).collect();
    ensure("first non-zero coefficient is one", and(lead));
}
fn plane_canonical_unique<const N: usize>() where Vector<S, N>: VectorOps<S, N> {
    let Some(pl) = some_plane::<N>() else { return };
    let k = var("k");
    require!(nonzero(&k));
    let q = Plane::new(pl.normal.scale(&k), &pl.d * &k);
    let (c, e) = (pl.canonicalized(), q.canonicalized());
    ensure("equivalent equations have the same canonical form", and(vec![eqp(&c.normal.0, &e.normal.0), eq(&c.d, &e.d)]));
}
fn plane_cmp() {
    let (n, m) = (vec_::<3>("n"), vec_::<3>("m"));
    let (p, q) = (Plane::new(n.clone(), var("d")), Plane::new(m.clone(), var("e")));
    ensure("equal iff same coefficients", is_true_iff(p == q, and(vec![eqp(&n.0, &m.0), eq(&p.d, &q.d)])));
    let ext = |p: &Plane<S, 3>| -> Vec<S> { let mut v: Vec<S> = p.normal.0.coords.to_vec(); v.push(p.d.clone()); v };
    ensure("lexicographic order", lex(p.partial_cmp(&q), &ext(&p), &ext(&q)));
}

pub fn list() -> Vec<Decl> {
    vec![
        proof("Vector operators, 2D", &["Vector::add", "Vector::sub", "Vector::neg", "Vector::scale", "Vector::dot", "Vector::norm2", "Vector::axpy"], vector_ops::<2>),
        proof("Vector operators, 3D", &["Vector::add", "Vector::sub", "Vector::neg", "Vector::scale", "Vector::dot", "Vector::norm2", "Vector::axpy"], vector_ops::<3>),
        proof("Vector operators, 4D", &["Vector::add", "Vector::sub", "Vector::neg", "Vector::scale", "Vector::dot", "Vector::norm2", "Vector::axpy"], vector_ops::<4>),
        proof("Vector::lerp, 3D", &["Vector::lerp"], vector_lerp::<3>),
        proof("Vector::lerp, 4D", &["Vector::lerp"], vector_lerp::<4>),
        proof("Vector and point comparison, 2D", &["Vector::eq", "Vector::partial_cmp", "Vector::is_zero", "Point::eq", "Point::partial_cmp", "Point::is_zero"], vector_cmp::<2>),
        proof("Vector and point comparison, 3D", &["Vector::eq", "Vector::partial_cmp", "Vector::is_zero", "Point::eq", "Point::partial_cmp", "Point::is_zero"], vector_cmp::<3>),
        proof("Vector::cross, 2D", &["Cross2::cross"], cross2),
        proof("Vector::cross, 3D", &["Cross3::cross", "vector_cross"], cross3),
        proof("Vector::any_perpendicular, 3D", &["Vector::any_perpendicular"], perpendicular::<3>),
        proof("Vector::any_perpendicular, 4D", &["Vector::any_perpendicular"], perpendicular::<4>),
        proof("Point operators, 2D", &["Point::add", "Point::sub", "Point::add_vector", "Point::vector_to", "Point::midpoint", "Point::as_vector"], point_ops::<2>),
        proof("Point operators, 3D", &["Point::add", "Point::sub", "Point::add_vector", "Point::vector_to", "Point::midpoint", "Point::as_vector"], point_ops::<3>),
        proof("Point conversions", &["Point::as_vector_2", "Point::as_vector_3", "Point::as_point_2", "Point::as_point_3"], point_conv),
        proof("Matrix linear operations, 2x2", &["Matrix::add", "Matrix::sub", "Matrix::neg", "Matrix::scale", "Matrix::lerp", "Matrix::transpose", "Matrix::row", "Matrix::col", "Matrix::outer", "Matrix::mul(vector)"], matrix_linear::<2, 2>),
        proof("Matrix linear operations, 3x3", &["Matrix::add", "Matrix::sub", "Matrix::neg", "Matrix::scale", "Matrix::lerp", "Matrix::transpose", "Matrix::row", "Matrix::col", "Matrix::outer", "Matrix::mul(vector)"], matrix_linear::<3, 3>),
        proof("Matrix linear operations, 3x4", &["Matrix::add", "Matrix::sub", "Matrix::neg", "Matrix::scale", "Matrix::lerp", "Matrix::transpose", "Matrix::row", "Matrix::col", "Matrix::outer", "Matrix::mul(vector)"], matrix_linear::<3, 4>),
        proof("Matrix linear operations, 4x4", &["Matrix::add", "Matrix::sub", "Matrix::neg", "Matrix::scale", "Matrix::lerp", "Matrix::transpose", "Matrix::row", "Matrix::col", "Matrix::outer", "Matrix::mul(vector)"], matrix_linear::<4, 4>),
        proof("Matrix comparison, 2x2", &["Matrix::eq", "Matrix::partial_cmp", "Matrix::is_zero"], matrix_cmp),
        proof("Matrix product, 2x2", &["Matrix::mul(matrix)"], matrix_product::<2, 2, 2>),
        proof("Matrix product, 3x3", &["Matrix::mul(matrix)"], matrix_product::<3, 3, 3>),
        proof("Matrix product, 3x4 by 4x2", &["Matrix::mul(matrix)"], matrix_product::<3, 4, 2>),
        proof("Matrix product, 4x4", &["Matrix::mul(matrix)"], matrix_product::<4, 4, 4>),
        proof("Matrix::identity, 2", &["Matrix::identity"], identity::<2>),
        proof("Matrix::identity, 3", &["Matrix::identity"], identity::<3>),
        proof("Matrix::identity, 4", &["Matrix::identity"], identity::<4>),
        proof("Matrix::det, 2", &["Matrix::det"], determinant::<2>),
        proof("Matrix::det, 3", &["Matrix::det"], determinant::<3>),
        proof("Matrix::det, 4", &["Matrix::det", "Matrix::minor_data", "Matrix::det_from_data"], determinant::<4>),
        proof("Matrix::det, 5", &["Matrix::det", "Matrix::minor_data", "Matrix::det_from_data"], determinant::<5>),
        proof("Matrix::inverse, 2", &["Matrix::inverse"], inverse2),
        proof("Matrix::inverse, 3", &["Matrix::inverse"], inverse3),
        proof("Plane::new, 2D", &["Plane::new"], plane_new::<2>),
        proof("Plane::new, 3D", &["Plane::new"], plane_new::<3>),
        proof("Plane::from_points, 2D", &["Plane::from_points"], plane2),
        proof("Plane::from_points, 3D", &["Plane::from_points"], plane3),
        proof("Plane::origin, 2D", &["Plane::origin"], plane_origin::<2>),
        proof("Plane::origin, 3D", &["Plane::origin"], plane_origin::<3>),
        proof("Plane::basis, 2D", &["Plane::basis"], plane_basis::<2>),
        proof("Plane::basis, 3D", &["Plane::basis"], plane_basis::<3>),
        proof("Plane::canonicalized, 2D", &["Plane::canonicalized"], plane_canonical::<2>),
        proof("Plane::canonicalized, 3D", &["Plane::canonicalized"], plane_canonical::<3>),
        proof("Plane::canonicalized is unique, 2D", &["Plane::canonicalized"], plane_canonical_unique::<2>),
        proof("Plane::canonicalized is unique, 3D", &["Plane::canonicalized"], plane_canonical_unique::<3>),
        proof("Plane comparison", &["Plane::eq", "Plane::partial_cmp"], plane_cmp),
    ]
}
