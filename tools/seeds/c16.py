PRE='''#![allow(dead_code,unused_imports)]
use cgar::geometry::point::Point; use cgar::mesh::basic_types::Mesh; use cgar::mesh_processing::boolean::BooleanOp; use cgar::numeric::lazy_exact::LazyExact;
type M=Mesh<LazyExact,3>;
fn tet(p:[[i32;3];4])->M{ let mut m=M::new(); let v=p.map(|p|m.add_vertex(Point{coords:p.map(LazyExact::from)})); for t in [[0,2,1],[0,1,3],[1,2,3],[0,3,2]] { m.add_triangle(v[t[0]],v[t[1]],v[t[2]]); } m }
fn f(x:&LazyExact)->f64{ let a:cgar::numeric::cgar_f64::CgarF64=x.into(); a.0 }
/// six times the volume, after looking for open or doubled sides
fn vol6(m:&M)->f64{ let mut d=std::collections::BTreeSet::new(); let mut s=0.0;
 for i in 0..m.faces.len() { if m.faces[i].removed {continue} let v=m.face_vertices(i); for k in 0..3 { assert!(d.insert((v[k],v[(k+1)%3])),"doubled"); }
  let p=[0,1,2].map(|k|[0,1,2].map(|j|f(&m.vertices[v[k]].position[j]))); s+=p[0][0]*(p[1][1]*p[2][2]-p[1][2]*p[2][1])-p[0][1]*(p[1][0]*p[2][2]-p[1][2]*p[2][0])+p[0][2]*(p[1][0]*p[2][1]-p[1][1]*p[2][0]); }
 for e in &d { assert!(d.contains(&(e.1,e.0)),"open"); } s }
fn run(a:[[i32;3];4],b:[[i32;3];4],op:BooleanOp)->f64{ vol6(&tet(a).corefine_and_boolean(&mut tet(b),op)) }
const A:[[i32;3];4]=[[0,0,0],[30,0,0],[0,30,0],[0,0,30]];
/// a corner of this one lies in A: the rest of it outside
const B:[[i32;3];4]=[[5,6,7],[45,8,9],[8,47,10],[9,11,49]];
const IN:[[i32;3];4]=[[3,4,5],[9,5,6],[4,10,5],[5,6,11]];
const OUT:[[i32;3];4]=[[43,44,45],[49,45,46],[44,50,45],[45,46,51]];
fn whole(p:[[i32;3];4])->f64{ vol6(&tet(p)) }
fn same(a:f64,b:f64){ assert!((a-b).abs()<1e-3,"{a} {b}") }
/// the parts make up the whole
fn sums(a:[[i32;3];4],b:[[i32;3];4])->f64{ let (u,i,d,e)=(run(a,b,BooleanOp::Union),run(a,b,BooleanOp::Intersection),run(a,b,BooleanOp::Difference),run(b,a,BooleanOp::Difference)); same(i+d,whole(a)); same(i+e,whole(b)); same(u,i+d+e); i }
'''
B='src/mesh_processing/boolean.rs'
SEEDS=[
dict(id="c16-nested",property="C16",nth=0,needs="the difference of a solid and one inside it",
 breaks="the cavity is missing when the second solid lies wholly inside the first",
 edits=[(B,"                    PointInMeshResult::Inside => inside[f] = true,\n","                    PointInMeshResult::Inside => inside[f] = include_on_surface,\n")],
 demo=PRE+'''fn main(){ same(sums(A,IN),whole(IN)); same(sums(A,OUT),0.0); }'''),
dict(id="c16-flip",property="C16",needs="the difference of a solid and one inside it",
 breaks="the faces of a difference that come from the second solid keep their orientation",
 edits=[(B,"""                            vid_map[&(VertexSource::B, vs[2])],
                            vid_map[&(VertexSource::B, vs[1])],
                            vid_map[&(VertexSource::B, vs[0])],""","""                            vid_map[&(VertexSource::B, vs[0])],
                            vid_map[&(VertexSource::B, vs[1])],
                            vid_map[&(VertexSource::B, vs[2])],""")],
 demo=PRE+'''fn main(){ same(sums(A,IN),whole(IN)); assert!(sums(A,B)>1.0); }'''),
dict(id="c16-seam",property="C16",needs="any two crossing solids",
 breaks="the two sides of the seam do not share their corners",
 edits=[(B,"        result.remove_duplicate_vertices();\n        result.remove_unused_vertices();\n        result.remove_invalidated_faces();\n\n        // let result_edges","        result.remove_unused_vertices();\n        result.remove_invalidated_faces();\n\n        // let result_edges")],
 demo=PRE+'''fn main(){ assert!(sums(A,B)>1.0); }'''),
dict(id="c16-one-way",property="C16",nth=0,needs="solids that cross",
 breaks="the inside part spreads over the seam to the outside part from one of its sides",
 edits=[(B,"                face_pairs.entry(f1).or_default().push(f0);\n","                face_pairs.entry(f1).or_default();\n")],
 demo=PRE+'''fn main(){ assert!(sums(A,B)>1.0); }'''),
dict(id="c16-outside-a",property="C16",needs="the union of solids one inside the other",
 breaks="faces of the second solid that lie inside the first stay in the union when they do not cross",
 edits=[(B,"                    if !*inside {\n                        let vs = b.face_vertices(fb);","                    if !*inside || intersection_segments_b.is_empty() {\n                        let vs = b.face_vertices(fb);")],
 demo=PRE+'''fn main(){ same(sums(A,OUT),0.0); same(sums(A,IN),whole(IN)); }'''),
]
