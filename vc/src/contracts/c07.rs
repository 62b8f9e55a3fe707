use cgar::kernel::predicates::{bbox2d, bbox3d, bbox_approx2d, bbox_approx3d, centroid2};
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::vertex::Vertex;

type B<const N: usize> = Aabb<S, N, Point<S, N>>;

/// an arbitrary box with min <= max on every axis
fn boxx<const N: usize>(n: &str) -> B<N> {
    let min = pt::<N>(&format!("{n}m"));
    let ext = ptm::<N>(&format!("{n}e"), NN);
    Aabb::new(min.clone(), plus(&min, &ext.coords))
}
/// lo is the least and hi the greatest of the values
fn hull(lo: &S, hi: &S, vals: &[&S]) -> F {
    let mut c = vec![];
    for v in vals {
        c.push(le(lo, v));
        c.push(le(v, hi));
    }
    c.push(or(vals.iter().map(|v| eq(lo, v)).collect()));
    c.push(or(vals.iter().map(|v| eq(hi, v)).collect()));
    and(c)
}
fn from_points<const N: usize>() {
    let (a, b) = (pt::<N>("a"), pt::<N>("b"));
    let r = B::<N>::from_points(&a, &b);
    for i in 0..N {
        ensure("smallest box of the two points", hull(&r.min[i], &r.max[i], &[&a[i], &b[i]]));
    }
    ensure("corner accessors", and(vec![eqp(r.min(), &r.min), eqp(r.max(), &r.max)]));
}
fn union<const N: usize>() {
    let (a, b) = (boxx::<N>("a"), boxx::<N>("b"));
    let r = a.union(&b);
    for i in 0..N {
        ensure("smallest box containing both", hull(&r.min[i], &r.max[i], &[&a.min[i], &a.max[i], &b.min[i], &b.max[i]]));
    }
}
/// boxes sharing a point, constructively: b.min <= x <= b.max for an x in a
fn touching<const N: usize>() {
    let x = pt::<N>("x");
    let mk = |n: &str| {
        let (d, e) = (ptm::<N>(&format!("{n}d"), NN), ptm::<N>(&format!("{n}e"), NN));
        B::<N>::new(plus(&x, &std::array::from_fn(|i| &num(0) - &d[i])), plus(&x, &e.coords))
    };
    let (a, b) = (mk("a"), mk("b"));
    ensure("boxes with a common point intersect", bool_(a.intersects(&b)));
    ensure("the quick rejection never rejects them", bool_(a.intersects_approx(&b) != Some(false)));
}
fn disjoint<const N: usize>() {
    let (a, b) = (boxx::<N>("a"), boxx::<N>("b"));
    let r = a.intersects(&b);
    let sep = or((0..N).map(|i| or(vec![lt(&a.max[i], &b.min[i]), lt(&b.max[i], &a.min[i])])).collect());
    ensure("no intersection only across a separating axis", is_true_iff(!r, sep));
    ensure("symmetric", bool_(b.intersects(&a) == r));
}
fn quick<const N: usize>() {
    let (a, b) = (boxx::<N>("a"), boxx::<N>("b"));
    match a.intersects_approx(&b) {
        None => {}
        Some(false) => ensure("rejected boxes have a separating axis", or((0..N).map(|i| or(vec![lt(&a.max[i], &b.min[i]), lt(&b.max[i], &a.min[i])])).collect())),
        Some(true) => ensure("accepted boxes overlap", and((0..N).map(|i| and(vec![le(&b.min[i], &a.max[i]), le(&a.min[i], &b.max[i])])).collect())),
    }
}
fn center<const N: usize>() {
    let a = boxx::<N>("a");
    for i in 0..N {
        ensure("centre is the mid point", eq(&(&a.center(i) * &num(2)), &(&a.min[i] + &a.max[i])));
    }
}
fn longest<const N: usize>() {
    let a = boxx::<N>("a");
    let k = a.longest_axis();
    ensure("an axis", bool_(k < N));
    for i in 0..N {
        ensure("no axis is longer", le(&(&a.max[i] - &a.min[i]), &(&a.max[k] - &a.min[k])));
    }
}
fn inflated<const N: usize>() {
    let a = boxx::<N>("a");
    let d = var("d");
    let r = a.inflated(&d);
    let q = a.inflated_query_tol();
    let tol = <S as Scalar>::query_tolerance();
    for i in 0..N {
        ensure("lower side moves by the amount", eq(&r.min[i], &(&a.min[i] - &d)));
        ensure("upper side moves by the amount", eq(&r.max[i], &(&a.max[i] + &d)));
        ensure("lower side moves by the tolerance", eq(&q.min[i], &(&a.min[i] - &tol)));
        ensure("upper side moves by the tolerance", eq(&q.max[i], &(&a.max[i] + &tol)));
    }
}
fn points2(n: usize) {
    let p: Vec<Point2<S>> = (0..n).map(|i| pt::<2>(&format!("p{i}"))).collect();
    let (lo, hi) = bbox2d(&p);
    for k in 0..2 {
        ensure("smallest box of the points", hull(&lo[k], &hi[k], &p.iter().map(|q| &q[k]).collect::<Vec<_>>()));
    }
}
fn points3(n: usize) {
    // axes are independent: one moves at a time, so that the orders of the axes do not multiply
    let axis = choose(3);
    let p: Vec<Point3<S>> = (0..n).map(|i| Point { coords: std::array::from_fn(|k| if k == axis { var(&format!("p{i}")) } else { num((i * (3 + k)) as i64 % 7) }) }).collect();
    let (lo, hi) = bbox3d(&p);
    for k in 0..3 {
        ensure("smallest box of the points", hull(&lo[k], &hi[k], &p.iter().map(|q| &q[k]).collect::<Vec<_>>()));
    }
}
fn points_approx(n: usize) {
    let vals = [-2.0f64, 1.5, 4.0, 0.25, 7.0, -3.0];
    let p: Vec<[S; 3]> = (0..n).map(|_| std::array::from_fn(|_| S::from(vals[choose(vals.len())]))).collect();
    if choose(2) == 0 {
        let q: Vec<Point2<S>> = p.iter().map(|c| Point { coords: [c[0].clone(), c[1].clone()] }).collect();
        let (lo, hi) = bbox_approx2d(&q);
        for k in 0..2 {
            ensure("smallest box of the double points", hull(&lo[k], &hi[k], &q.iter().map(|q| &q[k]).collect::<Vec<_>>()));
        }
    } else {
        let q: Vec<Point3<S>> = p.iter().map(|c| Point { coords: c.clone() }).collect();
        let (lo, hi) = bbox_approx3d(&q);
        for k in 0..3 {
            ensure("smallest box of the double points", hull(&lo[k], &hi[k], &q.iter().map(|q| &q[k]).collect::<Vec<_>>()));
        }
    }
}
fn mid() {
    let (a, b) = (pt::<2>("a"), pt::<2>("b"));
    let m = centroid2(&a, &b);
    for k in 0..2 {
        ensure("mid point", eq(&(&m[k] * &num(2)), &(&a[k] + &b[k])));
    }
}
fn mesh_of<const N: usize>(p: &[Point<S, N>; 3], order: usize) -> Mesh<S, N> where Point<S, N>: PointOps<S, N, Vector = Vector<S, N>>, Vector<S, N>: VectorOps<S, N> {
    let mut m = Mesh::<S, N>::new();
    for q in p {
        m.vertices.push(Vertex::new(q.clone()));
    }
    let [a, b, c] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1]][order];
    m.add_triangle(a, b, c);
    m
}
fn contains<const N: usize>(b: &B<N>, p: &[Point<S, N>; 3]) {
    for q in p {
        for i in 0..N {
            ensure("face corner inside the box", and(vec![le(&b.min[i], &q[i]), le(&q[i], &b.max[i])]));
        }
    }
}
/// one axis is symbolic, the others are fixed, unless all axes are small in number
fn corners<const N: usize>() -> [Point<S, N>; 3] {
    let axis = choose(N);
    std::array::from_fn(|i| Point { coords: std::array::from_fn(|k| if k == axis { var(&format!("p{i}")) } else { num([[0, 3, -2], [5, -1, 4], [2, 2, 7]][k][i]) }) })
}
fn face_box<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = Vector<S, N>>, Vector<S, N>: VectorOps<S, N> {
    let p = corners::<N>();
    let m = mesh_of(&p, choose(4));
    contains(&m.face_aabb(0), &p);
}
fn tree_box<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = Vector<S, N>>, Vector<S, N>: VectorOps<S, N> {
    let p = corners::<N>();
    let m = mesh_of(&p, choose(4));
    let t = m.build_face_tree();
    match t.get_aabb(0) {
        Some(b) => contains(b, &p),
        None => ensure("the face is in the tree", ff()),
    }
    let (t, look) = m.build_face_tree_with_lookup();
    match t.get_aabb(0) {
        Some(b) => contains(b, &p),
        None => ensure("the face is in the tree", ff()),
    }
    ensure("one box per face", bool_(look.len() == 1));
    contains(&look[0], &p);
}
fn exact_box<const N: usize>() {
    let p: [Point<S, N>; 3] = [pt::<N>("a"), pt::<N>("b"), pt::<N>("c")];
    let b = cgar::mesh::core::compute_triangle_aabb_exact(&p[0], &p[1], &p[2]);
    for i in 0..N {
        ensure("smallest box of the corners", hull(&b.min[i], &b.max[i], &[&p[0][i], &p[1][i], &p[2][i]]));
    }
}
fn fast_box<const N: usize>() {
    let p = corners::<N>();
    if let Some(b) = cgar::mesh::core::compute_triangle_aabb_fast(&p[0], &p[1], &p[2]) {
        contains(&b, &p);
    } else {
        ensure("interval boxes may be unavailable", t());
    }
}
fn face_box_all2() {
    let p: [Point<S, 2>; 3] = [pt::<2>("a"), pt::<2>("b"), pt::<2>("c")];
    let m = mesh_of(&p, 0);
    contains(&m.face_aabb(0), &p);
}
fn two_faces<const N: usize>() where Point<S, N>: PointOps<S, N, Vector = Vector<S, N>>, Vector<S, N>: VectorOps<S, N> {
    // second face of a two-face mesh: the box belongs to that face, also after the first is removed
    let p = corners::<N>();
    let mut m = Mesh::<S, N>::new();
    for q in &p {
        m.vertices.push(Vertex::new(q.clone()));
    }
    for k in 0..2 {
        m.vertices.push(Vertex::new(Point { coords: std::array::from_fn(|i| num((40 + 7 * k + 3 * i) as i64)) }));
    }
    m.add_triangle(0, 3, 4);
    m.add_triangle(0, 1, 2);
    contains(&m.face_aabb(1), &p);
    m.remove_triangle(0);
    contains(&m.face_aabb(1), &p);
}

pub fn list() -> Vec<Decl> {
    vec![
        proof("box of two points 2D", &["Aabb::from_points"], from_points::<2>),
        proof("box of two points 3D", &["Aabb::from_points"], from_points::<3>),
        proof("union 2D", &["Aabb::union"], union::<2>),
        proof("union 3D", &["Aabb::union"], union::<3>),
        proof("touching boxes 2D", &["Aabb::intersects", "Aabb::intersects_approx"], touching::<2>),
        proof("touching boxes 3D", &["Aabb::intersects", "Aabb::intersects_approx"], touching::<3>),
        proof("intersects iff overlap 2D", &["Aabb::intersects"], disjoint::<2>),
        proof("intersects iff overlap 3D", &["Aabb::intersects"], disjoint::<3>),
        proof("quick rejection 2D", &["Aabb::intersects_approx", "Aabb::double_bounds"], quick::<2>).approx(&[-1.0, 0.0, 2.0, 5.0]),
        proof("quick rejection of touching boxes 2D", &["Aabb::intersects_approx", "Aabb::double_bounds"], touching::<2>).approx(&[-1.0, 0.0, 2.0, 5.0]),
        proof("centre 2D", &["Aabb::center"], center::<2>),
        proof("centre 3D", &["Aabb::center"], center::<3>),
        proof("longest axis 2D", &["Aabb::longest_axis", "Aabb::extent"], longest::<2>),
        proof("longest axis 3D", &["Aabb::longest_axis", "Aabb::extent"], longest::<3>),
        proof("inflated 2D", &["Aabb::inflated", "Aabb::inflated_query_tol"], inflated::<2>),
        proof("inflated 3D", &["Aabb::inflated", "Aabb::inflated_query_tol"], inflated::<3>),
        proof("box of a point set 2D", &["bbox2d"], || points2(choose(3) + 1)).within("1 to 3 points"),
        proof("box of a point set 3D", &["bbox3d"], || points3(choose(4) + 1)).within("1 to 4 points, one axis symbolic"),
        bounded("box of a double point set, up to 2 points from 6 values", &["bbox_approx2d", "bbox_approx3d"], || points_approx(choose(2) + 1)),
        proof("mid point", &["centroid2"], mid),
        proof("exact triangle box 2D", &["compute_triangle_aabb_exact", "min3_ref", "max3_ref"], exact_box::<2>),
        proof("exact triangle box 3D", &["compute_triangle_aabb_exact", "min3_ref", "max3_ref"], exact_box::<3>),
        proof("interval triangle box 2D", &["compute_triangle_aabb_fast"], fast_box::<2>).approx(&[-1.0, 0.0, 2.0]),
        proof("interval triangle box 3D", &["compute_triangle_aabb_fast"], fast_box::<3>).approx(&[-1.0, 0.0, 2.0]),
        proof("face box 2D, exact path", &["Mesh::face_aabb", "compute_triangle_aabb_exact"], face_box::<2>),
        proof("face box 3D, exact path", &["Mesh::face_aabb", "compute_triangle_aabb_exact"], face_box::<3>),
        proof("face box 2D, all coordinates", &["Mesh::face_aabb", "compute_triangle_aabb_exact"], face_box_all2),
        proof("face box 2D, interval path", &["compute_triangle_aabb_fast"], face_box::<2>).approx(&[-1.0, 0.0, 2.0]),
        proof("face box 3D, interval path", &["compute_triangle_aabb_fast"], face_box::<3>).approx(&[-1.0, 0.0, 2.0]),
        proof("boxes in the face tree 2D", &["build_face_tree", "build_face_tree_with_lookup", "internal_build_face_tree"], tree_box::<2>).approx(&[-1.0, 0.0, 2.0]),
        proof("boxes in the face tree 3D", &["build_face_tree", "build_face_tree_with_lookup", "internal_build_face_tree"], tree_box::<3>).approx(&[-1.0, 0.0, 2.0]),
        proof("box of a second face 2D", &["Mesh::face_aabb"], two_faces::<2>),
        proof("box of a second face 3D", &["Mesh::face_aabb"], two_faces::<3>),
    ]
}
