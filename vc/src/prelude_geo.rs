// Included into the generic worlds: derived vocabulary on points and vectors.
#[allow(unused_imports)]
use cgar::geometry::{point::{Point, PointOps, Point2, Point3}, vector::{Vector, VectorOps, Cross3}, segment::{Segment, SegmentOps}, plane::{Plane, PlaneOps}, aabb::Aabb, spatial_element::SpatialElement};
#[allow(unused_imports)]
use cgar::numeric::scalar::Scalar;
#[allow(unused_imports)]
use cgar::operations::{Abs, Zero, One};
#[allow(dead_code)] pub fn eqp<const N: usize>(a: &Point<S, N>, b: &Point<S, N>) -> F { and((0..N).map(|i| eq(&a.coords[i], &b.coords[i])).collect()) }
/// a + s*(b-a)
#[allow(dead_code)] pub fn lerp<const N: usize>(a: &Point<S, N>, b: &Point<S, N>, s: &S) -> Point<S, N> { Point { coords: std::array::from_fn(|i| &a.coords[i] + &(s * &(&b.coords[i] - &a.coords[i]))) } }
#[allow(dead_code)] pub fn dot_<const N: usize>(a: &[S; N], b: &[S; N]) -> S { let mut s = num(0); for i in 0..N { s = s + &a[i] * &b[i]; } s }
#[allow(dead_code)] pub fn diff<const N: usize>(a: &Point<S, N>, b: &Point<S, N>) -> [S; N] { std::array::from_fn(|i| &a.coords[i] - &b.coords[i]) }
#[allow(dead_code)] pub fn cross_(a: &[S; 3], b: &[S; 3]) -> [S; 3] { [ &(&a[1]*&b[2]) - &(&a[2]*&b[1]), &(&a[2]*&b[0]) - &(&a[0]*&b[2]), &(&a[0]*&b[1]) - &(&a[1]*&b[0]) ] }
#[allow(dead_code)] pub fn det2(a: &[S; 2], b: &[S; 2]) -> S { &(&a[0]*&b[1]) - &(&a[1]*&b[0]) }
#[allow(dead_code)] pub fn det3(a: &[S; 3], b: &[S; 3], c: &[S; 3]) -> S { dot_(a, &cross_(b, c)) }
/// vectors parallel (rank <= 1): all 2x2 minors vanish
#[allow(dead_code)] pub fn parallel<const N: usize>(u: &[S; N], v: &[S; N]) -> F { let mut c = vec![]; for i in 0..N { for j in i+1..N { c.push(eq(&(&u[i]*&v[j]), &(&u[j]*&v[i]))); } } and(c) }
/// a fresh point given by its offset from a (every point has exactly one offset)
#[allow(dead_code)] pub fn off<const N: usize>(a: &Point<S, N>, n: &str) -> Point<S, N> { let d = pt::<N>(n); Point { coords: std::array::from_fn(|i| &a.coords[i] + &d.coords[i]) } }
#[allow(dead_code)] pub fn plus<const N: usize>(a: &Point<S, N>, d: &[S; N]) -> Point<S, N> { Point { coords: std::array::from_fn(|i| &a.coords[i] + &d[i]) } }
#[allow(dead_code)] pub fn ptm<const N: usize>(n: &str, mask: u8) -> Point<S, N> { Point { coords: std::array::from_fn(|i| varm(&format!("{}{}", n, i), mask)) } }
