exec(open('/verif/tools/seeds/mesh.py').read().split('SEEDS=[')[0])
PRE+='''
use cgar::mesh_processing::remesh::RemeshOptions; use num_traits::ToPrimitive;
fn fan(n:usize,ring:&[(i32,i32,i32)],c:(i32,i32,i32),open:bool)->Mesh<Q,3>{ let mut m=Mesh::new(); m.add_vertex(p3(c.0,c.1,c.2)); for p in ring { m.add_vertex(p3(p.0,p.1,p.2)); } for i in 0..if open {n-1} else {n} { m.add_triangle(0,1+i,1+(i+1)%n); } m }
const R4:[(i32,i32,i32);4]=[(4,0,0),(0,4,0),(-4,0,0),(0,-4,0)];
'''
C='src/mesh/core.rs'; M='src/mesh_processing/remesh.rs'
SEEDS=[
dict(id="c17-normal-part",property="C17",needs="a vertex off the plane of its neighbours",
 breaks="the normal part of a smoothing move is added in one coordinate instead of taken off",
 edits=[(C,"            t2 = &t2 - &(&n2 * &k);\n","            t2 = &t2 + &(&n2 * &k);\n")],
 demo=PRE+'''fn main(){ let mut m=fan(4,&R4,(1,0,2),false); assert!(m.smooth_tangential(0,r(1,2),&q(100))); let p=&m.vertices[0].position; let e:Vec<[Q;3]>=(1..5).map(|i|{ let b=&m.vertices[i].position; let a=[q(1),q(0),q(2)]; [&b[0]-&a[0],&b[1]-&a[1],&b[2]-&a[2]] }).collect(); let mut n=[q(0),q(0),q(0)]; for i in 0..4 { let (u,v)=(&e[i],&e[(i+1)%4]); n[0]=&n[0]+&(&(&u[1]*&v[2])-&(&u[2]*&v[1])); n[1]=&n[1]+&(&(&u[2]*&v[0])-&(&u[0]*&v[2])); n[2]=&n[2]+&(&(&u[0]*&v[1])-&(&u[1]*&v[0])); } let d=&(&(&n[0]*&(&p[0]-&q(1)))+&(&n[1]*&(&p[1]-&q(0))))+&(&n[2]*&(&p[2]-&q(2))); assert!(d==q(0),"left the tangent plane"); }'''),
dict(id="c17-border",property="C17",needs="smoothing a vertex on the border",
 breaks="border vertices are smoothed",
 edits=[(C,"        if is_boundary || valid_neighbors.len() < 2 {","        if is_boundary && valid_neighbors.len() < 2 {")],
 demo=PRE+'''fn main(){ let mut m=fan(4,&R4,(0,1,0),true); assert!(!m.smooth_tangential(0,r(1,2),&q(100))); assert!(m.vertices[0].position[1]==q(1)); }'''),
dict(id="c17-limit",property="C17",needs="a move that makes the edge to one of the first neighbours too long",
 breaks="only the last neighbour is compared with the length limit",
 edits=[(C,"        for &(_he, b_idx) in &valid_neighbors {\n            let b","        for &(_he, b_idx) in valid_neighbors.last() {\n            let b")],
 demo=PRE+'''fn main(){ let ring=[(9,0,0),(0,4,0),(-1,0,0),(0,-4,0)]; for k in 0..4 { let r4:Vec<_>=(0..4).map(|i|ring[(i+k)%4]).collect(); let mut m=fan(4,&r4,(0,0,0),false); assert!(!m.smooth_tangential(0,r(1,2),&q(20)),"an edge is too long"); } }'''),
dict(id="c17-average",property="C17",needs="smoothing any inner vertex",
 breaks="the move is divided by one neighbour too few",
 edits=[(C,"T::from(valid_neighbors.len() as f64)","T::from((valid_neighbors.len() - 1) as f64)")],
 demo=PRE+'''fn main(){ let mut m=fan(4,&[(4,0,0),(0,4,0),(-8,0,0),(0,-4,0)],(0,0,0),false); assert!(m.smooth_tangential(0,q(1),&q(100))); assert!(m.vertices[0].position[0]==q(-1)); }'''),
dict(id="c17-square",property="C17",needs="a limit other than one",
 breaks="smoothing compares squared lengths with the limit itself",
 edits=[(M,"        let max_sq = max_edge_length * max_edge_length;\n","        let max_sq = max_edge_length * &T::one();\n")],
 demo=PRE+'''fn main(){ let mut m=fan(4,&R4,(1,0,0),false); assert_eq!(m.smooth_vertices(1,&q(6)),1); let mut m=fan(4,&[(1,0,0),(0,1,0),(-1,0,0),(0,-1,0)].map(|p|p),(0,0,1),false); for v in m.vertices.iter_mut() { for k in 0..3 { v.position[k]=&v.position[k]*&r(1,4); } } assert_eq!(m.smooth_vertices(1,&r(1,8)),0); }'''),
dict(id="c17-midpoint",property="C17",needs="a patch away from the origin with an edge much longer than the target length",
 breaks="a long edge is split at a third of the sum of its ends instead of half",
 edits=[(M,".scale(&T::from_num_den(1,2)).0",".scale(&T::from_num_den(1,3)).0")],
 demo=PRE+'''fn main(){ let mut m=Mesh::<CgarF64,3>::new(); for p in [[0.,0.,6.],[10.,0.,6.],[0.,10.,6.],[10.,10.,6.]] { m.add_vertex(Point{coords:p.map(CgarF64::from)}); } m.add_triangle(0,1,2); m.add_triangle(1,3,2); m.isotropic_remesh(&RemeshOptions::new(CgarF64::from(3.0))).ok(); for v in &m.vertices { if !v.removed { assert!((v.position[2].to_f64().unwrap()-6.0).abs()<1e-6,"left the plane"); } } }'''),
]
