exec(open('/verif/tools/seeds/mesh.py').read().split('SEEDS=[')[0])
PRE+='''
use cgar::mesh::basic_types::*; use cgar::mesh::topology::*;
fn v3(x:i32,y:i32,z:i32)->Vector<Q,3>{Vector::from_vals([q(x),q(y),q(z)])}
fn tri(n:i32)->Mesh<Q,3>{ let mut m=Mesh::new(); for k in 0..n { let z=5*(k+1); for p in [p3(0,0,z),p3(8,0,z),p3(0,8,z)] { m.add_vertex(p); } let b=(3*k) as usize; m.add_triangle(b,b+1,b+2); } m }
'''
T='src/mesh/topology.rs'
SEEDS=[
dict(id="c18-far-corner",property="C18",needs="a ray passing the longest side of a face at some distance",
 breaks="a ray hits the parallelogram spanned by the face instead of the face",
 edits=[(T,"    if (&v + &eps).is_negative() || (&sum_uv - &(&one + &eps)).is_positive() {","    if (&v + &eps).is_negative() || (&v - &(&one + &eps)).is_positive() || sum_uv.is_negative() {")],
 demo=PRE+'''fn main(){ let m=tri(1); let t=m.build_face_tree(); match m.cast_ray_3(&p3(6,6,0),&v3(0,0,1),&t,&None) { IntersectionResult::Miss=>{}, IntersectionResult::Hit(..)=>panic!("hit beside the face") } }'''),
dict(id="c18-nearest",property="C18",nth=2,needs="a ray through the inside of two faces",
 breaks="the farthest face is reported instead of the nearest",
 edits=[(T,"if best_t.is_none() || t < best_t.clone().unwrap() {","if best_t.is_none() || t > best_t.clone().unwrap() {")],
 demo=PRE+'''fn main(){ let m=tri(3); let t=m.build_face_tree(); match m.cast_ray_3(&p3(1,2,0),&v3(0,0,1),&t,&None) { IntersectionResult::Hit(_,t)=>assert!(t==q(5)), _=>panic!() } }'''),
dict(id="c18-vertex",property="C18",needs="a ray through the second or third corner of a face",
 breaks="the second and third corner are confused when a ray hits a vertex",
 edits=[(T,"                                   else if z2 && z0 { vs_idxs[1] }\n                                   else { vs_idxs[2] };\n                        if best_t.is_none()","                                   else if z2 && z0 { vs_idxs[2] }\n                                   else { vs_idxs[1] };\n                        if best_t.is_none()")],
 demo=PRE+'''fn main(){ let m=tri(1); let t=m.build_face_tree(); for (p,w) in [(p3(0,0,0),p3(0,0,5)),(p3(8,0,0),p3(8,0,5)),(p3(0,8,0),p3(0,8,5))] { match m.cast_ray_3(&p,&v3(0,0,1),&t,&None) { IntersectionResult::Hit(IntersectionHit::Vertex(i),_)=>for k in 0..3 { assert!(m.vertices[i].position[k]==w[k]) }, _=>panic!() } } }'''),
dict(id="c18-behind",property="C18",needs="a face behind the origin of a ray",
 breaks="a face behind the ray is reported as hit at distance zero",
 edits=[(T,"    if (&t_raw + &eps).is_negative() {\n        return None;\n    }\n    let t = if","    if (&t_raw + &one).is_negative() {\n        return None;\n    }\n    let t = if")],
 demo=PRE+'''fn main(){ let mut m=Mesh::<Q,3>::new(); for p in [p3(-8,-8,0),p3(8,-8,0),p3(0,8,12)] { m.add_vertex(p); } m.add_triangle(0,1,2); let t=m.build_face_tree(); match m.cast_ray_3(&p3(0,0,7),&v3(1,1,2),&t,&None) { IntersectionResult::Miss=>{}, IntersectionResult::Hit(..)=>panic!("hit behind") } }'''),
dict(id="c18-planar-end",property="C18",needs="a point left or right of a sloped border edge",
 breaks="the crossing of a border edge is measured from its wrong end",
 edits=[(T,"        let x_intersect = &p1[0] + &(&t * &(&p2[0] - &p1[0]));\n","        let x_intersect = &p2[0] + &(&t * &(&p1[0] - &p2[0]));\n")],
 demo=PRE+'''fn main(){ let mut m=Mesh::<Q,2>::new(); for p in [p2(0,0),p2(8,0),p2(0,8)] { m.add_vertex(p); } m.add_triangle(0,1,2); assert!(m.point_in_mesh_2(&p2(2,1))); assert!(!m.point_in_mesh_2(&p2(3,7))); assert!(m.point_in_mesh_2(&p2(6,1))); }'''),
]
