PRE='''#![allow(unused_imports,dead_code)]
use cgar::geometry::point::{Point,PointOps}; use cgar::geometry::vector::*; use cgar::geometry::segment::*; use cgar::geometry::aabb::Aabb; use cgar::geometry::plane::*;
use cgar::numeric::cgar_rational::CgarRational as Q; use cgar::numeric::scalar::Scalar; use cgar::mesh::basic_types::Mesh; use cgar::mesh::vertex::Vertex; use cgar::geometry::spatial_element::SpatialElement;
fn q(x:i32)->Q{Q::from_num_den(x,1)} fn r(a:i32,b:i32)->Q{Q::from_num_den(a,b)}
fn p2(x:i32,y:i32)->Point<Q,2>{Point{coords:[q(x),q(y)]}} fn p3(x:i32,y:i32,z:i32)->Point<Q,3>{Point{coords:[q(x),q(y),q(z)]}}
'''
SEEDS=[
dict(id="c04-3d-clamp",property="C04",needs="two 3D segments crossing beyond the far end of the second",
 breaks="3D segment intersection clamps the second parameter only from below, so segments whose lines cross past an end are reported as meeting",
 edits=[("src/geometry/intersection.rs","    let t_clamped = if t < zero {\n        zero.clone()\n    } else if t > T::from(1) {\n        T::from(1)\n    } else {","    let t_clamped = if t < zero {\n        zero.clone()\n    } else {")],
 demo=PRE+'''use cgar::geometry::intersection::*;
fn main(){ let a=Segment::new(&p3(0,0,0),&p3(10,0,0)); let b=Segment::new(&p3(4,6,0),&p3(4,3,0)); assert!(matches!(segment_segment_intersection_3(&a,&b),SegmentIntersection3::None)); }'''),
dict(id="c04-ray-behind",property="C04",needs="a ray collinear with a segment that starts behind the origin and ends ahead of it",
 breaks="a ray starting inside a collinear segment no longer hits it",
 edits=[("src/mesh/topology.rs","        if tmax < T::zero() {\n            return None; // entire","        if tmin < T::zero() {\n            return None; // entire")],
 demo=PRE+'''use cgar::mesh::topology::ray_segment_intersection_2d;
fn main(){ let d=Vector(p2(1,0)); let h=ray_segment_intersection_2d(&p2(0,0),&d,&p2(-2,0),&p2(3,0)); assert!(h.is_some()); }'''),
dict(id="c04-edge-parallel-y",property="C04",needs="two edges in 2D whose intersection is not on the x axis direction of the first",
 breaks="the y coordinate of an edge-edge intersection is taken along the second edge's start",
 edits=[("src/geometry/edge_edge_intersect.rs","        let y = p1[1].clone() + t * (p2[1].clone() - p1[1].clone());","        let y = p1[1].clone() + t * (p2[1].clone() - p3[1].clone());")],
 demo=PRE+'''use cgar::geometry::edge_edge_intersect::edge_edge_intersection_2;
fn main(){ let x=edge_edge_intersection_2(&p2(0,0),&p2(4,4),&p2(0,4),&p2(4,0)).unwrap(); assert!(x[0]==q(2)&&x[1]==q(2)); }'''),
dict(id="c06-edge-param",property="C06",needs="a point strictly inside the edge between the second and third corner",
 breaks="the parameter of a point on the second edge of a face is measured from the wrong end",
 edits=[("src/mesh/topology.rs","if l0.is_zero() { return Some((e1, l2.clone())); }","if l0.is_zero() { return Some((e1, l1.clone())); }")],
 demo=PRE+'''use cgar::mesh::topology::FindFaceResult;
fn main(){ let mut m=Mesh::<Q,2>::new(); for p in [p2(0,0),p2(4,0),p2(0,4)] { m.vertices.push(Vertex::new(p)); } m.add_triangle(0,1,2);
 match m.location_on_face(0,&p2(3,1)) { FindFaceResult::OnEdge{he,u,..}=>{ let s=m.half_edges[m.half_edges[he].prev].vertex; let t=m.half_edges[he].vertex; let a=&m.vertices[s].position; let b=&m.vertices[t].position; assert!(&a[0]+&(&u*&(&b[0]-&a[0]))==q(3)); } _=>panic!() } }'''),
dict(id="c06-ray-outside",property="C06",needs="a ray in the face plane that crosses the line of the opposite edge beyond its far end",
 breaks="casting a ray from a corner reports a crossing beyond the end of the opposite edge",
 edits=[("src/mesh/topology.rs","        if u < T::zero() || u > T::one() {\n            println!(\"Starting","        if u < T::zero() {\n            println!(\"Starting")],
 demo=PRE+'''use cgar::mesh::topology::VertexRayResult;
fn main(){ let mut m=Mesh::<Q,3>::new(); for p in [p3(0,0,0),p3(4,0,0),p3(0,4,0)] { m.vertices.push(Vertex::new(p)); } m.add_triangle(0,1,2);
 let d=Vector(p3(-1,3,0)); assert!(m.cast_ray_from_vertex_in_triangle(0,0,&d).is_none()); }'''),
dict(id="c07-touch",property="C07",needs="two boxes that touch exactly in a face of the first",
 breaks="boxes that only touch at the upper side of the first are reported as disjoint",
 edits=[("src/geometry/aabb.rs","            if (&self.max[i] - &other.min[i]).is_negative() {","            if (&self.max[i] - &other.min[i]).is_negative_or_zero() {")],
 demo=PRE+'''fn main(){ let a=Aabb::<Q,2,_>::from_points(&p2(0,0),&p2(2,2)); let b=Aabb::<Q,2,_>::from_points(&p2(2,0),&p2(3,1)); assert!(a.intersects(&b)); }'''),
dict(id="c07-face-third",property="C07",needs="a face whose third corner has the greatest coordinate, with coordinates that are not doubles",
 breaks="the exact box of a face ignores the third corner on the upper side",
 edits=[("src/mesh/core.rs","        let m = max3_ref(&p0[i], &p1[i], &p2[i]);","        let m = max3_ref(&p0[i], &p1[i], &p1[i]);")],
 demo=PRE+'''fn main(){ let a=p2(0,0); let b=p2(1,0); let c=Point{coords:[r(1,3),r(10,3)]}; let x=cgar::mesh::core::compute_triangle_aabb_exact(&a,&b,&c); assert!(x.max[1]>=c[1]); }'''),
dict(id="c14-cross-y",property="C14",needs="the matrix-vector product of a non-square or non-symmetric matrix",
 breaks="plane origin for normals without z component uses the wrong axis",
 edits=[("src/geometry/plane.rs","            let y = &-&self.d / &n[1];\n            Point::<T, 3>::from_vals([zero.clone(), y, zero.clone()])","            let y = &-&self.d / &n[1];\n            Point::<T, 3>::from_vals([y, zero.clone(), zero.clone()])")],
 demo=PRE+'''fn main(){ let pl=Plane::<Q,3>::from_points([&p3(0,2,0),&p3(0,2,1),&p3(1,2,0)]); let o=pl.origin(); assert!(o[1]==q(2)); }'''),
dict(id="c14-canonical-sign",property="C14",needs="a plane whose first non-zero normal component is negative",
 breaks="the canonical form of a plane flips the normal but not the offset",
 edits=[("src/geometry/plane.rs","                plane.d = -plane.d;\n",'                plane.d = plane.d.abs();\n')],
 demo=PRE+'''fn main(){ let a=Plane::<Q,3>::new(Vector(p3(-2,0,0)),q(4)); let b=Plane::<Q,3>::new(Vector(p3(1,0,0)),q(-2)); assert!(a.canonicalized()==b.canonicalized()); }'''),
]
