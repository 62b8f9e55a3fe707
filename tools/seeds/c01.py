SEEDS=[
dict(id="c01-collinear-axis",property="C01",needs="a 3D direction along the last axis only, with the third point displaced in the middle coordinate",
 breaks="collinearity ignores a displacement along a middle axis when the direction has no component there",
 edits=[("src/kernel/predicates.rs","        } else if vi.abs().is_positive() {\n            return false; // ui","        } else if i != 1 && vi.abs().is_positive() {\n            return false; // ui")],
 demo='''use cgar::geometry::point::Point; use cgar::numeric::cgar_rational::CgarRational as Q; use cgar::kernel::predicates::are_collinear; use cgar::numeric::scalar::Scalar;
fn p(x:i32,y:i32,z:i32)->Point<Q,3>{Point{coords:[Q::from_num_den(x,1),Q::from_num_den(y,1),Q::from_num_den(z,1)]}}
fn main(){ assert!(are_collinear(&p(0,0,0),&p(0,0,1),&p(0,0,2))); assert!(!are_collinear(&p(0,0,0),&p(0,0,1),&p(0,5,2))); }'''),
dict(id="c01-on-segment-strict",property="C01",needs="a query exactly at the upper end of an axis range of the segment",
 breaks="point-on-segment excludes the far end point",
 edits=[("src/kernel/predicates.rs","        if pi < min_i || pi > max_i {","        if pi < min_i || (pi >= max_i && min_i != max_i) {")],
 demo='''use cgar::geometry::point::Point; use cgar::geometry::segment::{Segment,SegmentOps}; use cgar::numeric::cgar_rational::CgarRational as Q; use cgar::kernel::predicates::is_point_on_segment; use cgar::numeric::scalar::Scalar;
fn p(x:i32,y:i32)->Point<Q,2>{Point{coords:[Q::from_num_den(x,1),Q::from_num_den(y,1)]}}
fn main(){ let s=Segment::new(&p(0,0),&p(4,0)); assert!(is_point_on_segment(&p(2,0),&s)); assert!(is_point_on_segment(&p(4,0),&s)); }'''),
dict(id="c01-vertex-count",property="C01",needs="a 3D triangle and a point exactly on a corner",
 breaks="a point exactly at a corner of the triangle is reported as on an edge",
 edits=[("src/kernel/predicates.rs","        if zc >= 2 {\n            return TrianglePoint::OnVertex; // exactly at a vertex","        if zc > 2 {\n            return TrianglePoint::OnVertex; // exactly at a vertex"),("src/kernel/predicates.rs","        if zc == 1 {\n            return TrianglePoint::OnEdge;","        if zc >= 1 {\n            return TrianglePoint::OnEdge;")],
 demo='''use cgar::geometry::point::Point; use cgar::numeric::cgar_rational::CgarRational as Q; use cgar::kernel::predicates::*; use cgar::numeric::scalar::Scalar;
fn p(x:i32,y:i32,z:i32)->Point<Q,3>{Point{coords:[Q::from_num_den(x,1),Q::from_num_den(y,1),Q::from_num_den(z,1)]}}
fn main(){ let r=point_in_or_on_triangle(&p(0,0,0),&p(0,0,0),&p(4,0,1),&p(0,4,2)); assert!(r==TrianglePoint::OnVertex); }'''),
dict(id="c01-degenerate-swap",property="C01",needs="a triangle whose first two corners coincide",
 breaks="triangles with two coincident corners a,b are no longer reported degenerate",
 edits=[("src/kernel/predicates.rs","are_equal(a, b) || are_equal(a, c) || are_equal(b, c) || are_collinear(a, b, c)","are_equal(a, c) || are_equal(b, c) || are_collinear(a, b, c)")],
 demo='''use cgar::geometry::point::Point; use cgar::numeric::cgar_rational::CgarRational as Q; use cgar::kernel::predicates::*; use cgar::numeric::scalar::Scalar;
fn p(x:i32,y:i32)->Point<Q,2>{Point{coords:[Q::from_num_den(x,1),Q::from_num_den(y,1)]}}
fn main(){ assert!(triangle_is_degenerate(&p(1,1),&p(1,1),&p(3,5))); }'''),
]
