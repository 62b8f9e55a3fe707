PRE='''#![allow(unused_imports,dead_code,unused_mut)]
use cgar::geometry::point::{Point,PointOps}; use cgar::geometry::vector::*; use cgar::geometry::aabb::Aabb; use cgar::geometry::aabb_tree::AabbTree;
use cgar::numeric::cgar_rational::CgarRational as Q; use cgar::numeric::cgar_f64::CgarF64; use cgar::numeric::scalar::Scalar; use cgar::mesh::basic_types::Mesh; use cgar::geometry::spatial_element::SpatialElement;
use cgar::mesh::edge_collapse::*;
fn q(x:i32)->Q{Q::from_num_den(x,1)} fn r(a:i32,b:i32)->Q{Q::from_num_den(a,b)}
fn p2(x:i32,y:i32)->Point<Q,2>{Point{coords:[q(x),q(y)]}} fn p3(x:i32,y:i32,z:i32)->Point<Q,3>{Point{coords:[q(x),q(y),q(z)]}}
type T2=AabbTree<Q,2,Point<Q,2>,usize>;
fn bx(a:i32,b:i32,c:i32,d:i32)->Aabb<Q,2,Point<Q,2>>{Aabb::from_points(&p2(a,b),&p2(c,d))}
fn hits(t:&T2,b:&Aabb<Q,2,Point<Q,2>>)->Vec<usize>{ let mut v=vec![]; t.query_valid(b,&mut v); let mut v:Vec<usize>=v.into_iter().copied().collect(); v.sort(); v }
/// every live half-edge, face and vertex agrees with its neighbours
fn sound<const N:usize>(m:&Mesh<Q,N>) {
 let live=|h:usize| h<m.half_edges.len() && !m.half_edges[h].removed;
 for h in 0..m.half_edges.len() { let e=&m.half_edges[h]; if e.removed {continue}
  assert!(live(e.twin)&&m.half_edges[e.twin].twin==h); assert!(live(e.next)&&m.half_edges[e.next].prev==h); assert!(live(e.prev)&&m.half_edges[e.prev].next==h);
  assert!(m.half_edges[m.half_edges[e.next].twin].vertex==e.vertex); assert!(m.half_edges[e.next].face==e.face);
  if let Some(f)=e.face { assert!(!m.faces[f].removed); assert!(m.half_edges[m.half_edges[e.next].next].next==h); }
  let s=m.half_edges[e.twin].vertex; assert!(m.edge_map.get(&(s,e.vertex))==Some(&h)); }
 for (k,&h) in &m.edge_map { assert!(live(h)); assert!(m.half_edges[h].vertex==k.1); }
 for (f,x) in m.faces.iter().enumerate() { if !x.removed { assert!(live(x.half_edge)&&m.half_edges[x.half_edge].face==Some(f)); } }
 for (v,x) in m.vertices.iter().enumerate() { match x.half_edge { Some(h)=>assert!(live(h)&&m.half_edges[m.half_edges[h].twin].vertex==v), None=>assert!(!m.half_edges.iter().any(|e| !e.removed&&e.vertex==v)) } }
}
fn quad()->Mesh<Q,3>{ let mut m=Mesh::new(); for p in [p3(0,0,0),p3(4,0,0),p3(4,4,1),p3(0,4,0)] { m.add_vertex(p); } m.add_triangle(0,1,2); m.add_triangle(0,2,3); m }
fn tmp(n:&str)->std::path::PathBuf{ std::path::PathBuf::from(n) }
'''
SEEDS=[
dict(id="c08-insert-bounds",property="C08",needs="an entry inserted beyond the bounds of a tree of several entries",
 breaks="the upper bounds of a node are not enlarged when an entry is inserted below it",
 edits=[("src/geometry/aabb_tree.rs","                *amax = amax_u;\n","                let _ = amax_u;\n")],
 demo=PRE+'''fn main(){ let mut t=T2::build(vec![(bx(0,0,1,1),1),(bx(3,0,4,1),2)]); t.insert(bx(20,20,21,21),3); assert_eq!(hits(&t,&bx(20,20,30,30)),vec![3]); }'''),
dict(id="c08-retire-first",property="C08",needs="several entries with the same data",
 breaks="retiring data stored more than once retires only those in the first subtree that has it",
 edits=[("src/geometry/aabb_tree.rs","                let rm = left.invalidate(target) + right.invalidate(target);","                let mut rm = left.invalidate(target);\n                if rm == 0 {\n                    rm = right.invalidate(target);\n                }")],
 demo=PRE+'''fn main(){ let mut t=T2::build(vec![(bx(0,0,1,1),7),(bx(3,0,4,1),7)]); t.invalidate(&7); assert!(hits(&t,&bx(0,0,9,9)).is_empty()); }'''),
dict(id="c08-insert-retired",property="C08",needs="an entry inserted where a retired entry is stored",
 breaks="an entry inserted next to a retired one is retired from the start",
 edits=[("src/geometry/aabb_tree.rs","                    data: Arc::new(new_data),\n                    valid: true,","                    data: Arc::new(new_data),\n                    valid: *valid,")],
 demo=PRE+'''fn main(){ let mut t=T2::build(vec![(bx(0,0,1,1),1)]); t.invalidate(&1); t.insert(bx(0,0,2,2),2); assert_eq!(hits(&t,&bx(0,0,9,9)),vec![2]); }'''),
dict(id="c08-insert-count",property="C08",needs="an insertion into a subtree all of whose entries are retired",
 breaks="an insertion is not counted as a valid entry, so a node with only retired entries before hides it",
 edits=[("src/geometry/aabb_tree.rs","                *valid_count += 1;\n","                if *valid_count > 0 {\n                    *valid_count += 1;\n                }\n")],
 demo=PRE+'''fn main(){ let mut t=T2::build(vec![(bx(0,0,1,1),1),(bx(3,0,4,1),2)]); t.invalidate(&1); t.invalidate(&2); t.insert(bx(0,0,2,2),3); assert_eq!(hits(&t,&bx(0,0,9,9)),vec![3]); }'''),
dict(id="c09-flip-vertex",property="C09",needs="the second end of the flipped edge remembers the flipped half-edge",
 breaks="after a flip a vertex may remember a half-edge that no longer leaves it",
 edits=[("src/mesh/core.rs","        if self.vertices[b].half_edge == Some(he_ba) { self.vertices[b].half_edge = Some(he_bc); }\n","")],
 demo=PRE+'''fn main(){ let mut m=quad(); for (a,b) in [(0,2),(2,0)] { let mut n=m.clone(); let h=n.edge_map[&(a,b)]; n.vertices[a].half_edge=Some(h); let g=n.edge_map[&(b,a)]; n.vertices[b].half_edge=Some(g); n.flip_edge(h).unwrap(); sound(&n); } let _=&mut m; }'''),
dict(id="c09-flip-one-flat",property="C09",needs="a flip that makes exactly one of the two new faces degenerate",
 breaks="a flip is refused only if both new faces would be degenerate",
 edits=[("src/mesh/core.rs","            if tri1_degenerate || tri2_degenerate {","            if tri1_degenerate && tri2_degenerate {")],
 demo=PRE+'''fn main(){ let mut m=Mesh::<Q,3>::new(); for p in [p3(0,0,0),p3(4,4,1),p3(2,0,0),p3(-2,0,0)] { m.add_vertex(p); } m.add_triangle(0,2,1); m.add_triangle(0,1,3); let h=m.edge_map[&(0,1)]; assert!(m.flip_edge(h).is_err()); }'''),
dict(id="c09-split-tree",property="C09",needs="an inner edge split with a search tree to update",
 breaks="the face on the far side of a split edge stays in the search tree",
 edits=[("src/mesh/core.rs","            aabb_tree.invalidate(&original_face_1);\n            aabb_tree.invalidate(&original_face_2);","            aabb_tree.invalidate(&original_face_1);")],
 demo=PRE+'''fn main(){ let mut m=quad(); let mut t=m.build_face_tree(); let h=m.edge_map[&(0,2)]; let p=Point{coords:[q(2),q(2),r(1,2)]}; m.split_edge(&mut t,h,&p,true).unwrap(); sound(&m);
 let mut v=vec![]; t.query_valid(&Aabb::from_points(&p3(-9,-9,-9),&p3(9,9,9)),&mut v); for f in v { assert!(!m.faces[*f].removed); } }'''),
dict(id="c09-face-vertex",property="C09",needs="a face split with a point strictly inside",
 breaks="after a face is split its third corner remembers a half-edge leaving another vertex",
 edits=[("src/mesh/core.rs","        self.vertices[b].half_edge = Some(he_bc);\n        self.vertices[c].half_edge = Some(he_ca);\n","        self.vertices[b].half_edge = Some(he_bc);\n        self.vertices[c].half_edge = Some(he_bc);\n")],
 demo=PRE+'''fn main(){ let mut m=quad(); let mut t=m.build_face_tree(); let p=Point{coords:[q(3),q(1),r(1,4)]}; m.split_face(&mut t,0,&p,false).unwrap(); sound(&m); }'''),
dict(id="c10-remove-lookup",property="C10",needs="a face removed at the border",
 breaks="removing a face leaves its own direction of a border edge in the edge lookup",
 edits=[("src/mesh/triangle.rs","                // Drop this interior spoke's map entry, then kill it.\n                remove_map_entry_if_owner(self, he);\n                self.half_edges[he].removed = true;","                // Kill this interior spoke.\n                self.half_edges[he].removed = true;")],
 demo=PRE+'''fn main(){ let mut m=quad(); m.remove_triangle(1); sound(&m); }'''),
dict(id="c10-batch-vertex",nth=0,property="C10",needs="a batch removal of faces followed by repairing the vertices",
 breaks="a vertex whose remembered half-edge was removed with a batch of faces is not repaired",
 edits=[("src/mesh/triangle.rs","                Some(h) => !is_outgoing_from(self, h, v),\n                None => true,","                Some(h) => h >= self.half_edges.len(),\n                None => true,")],
 demo=PRE+'''fn main(){ for f in 0..2 { let mut m=quad(); let (s,v)=m.remove_triangles_deferred(&[f]); m.weld_border_components_from(&s); m.fix_vertices_outgoing_for(&v); sound(&m); } }'''),
dict(id="c11-duplicate-lookup",property="C11",needs="a vertex looked up by position after duplicates were removed",
 breaks="the position lookup still has the old numbers after duplicates are removed",
 edits=[("src/mesh/core.rs","        self.vertices = new_vertices;\n        self.edge_map = new_edge_map;\n        self.vertex_spatial_hash = new_spatial_hash;","        self.vertices = new_vertices;\n        self.edge_map = new_edge_map;\n        let _ = new_spatial_hash;")],
 demo=PRE+'''fn main(){ let mut m=Mesh::<Q,3>::new(); for p in [p3(0,0,0),p3(0,0,0),p3(1,0,0),p3(0,1,0)] { m.add_vertex(p); } m.remove_duplicate_vertices(); for i in 0..3 { let p=m.vertices[i].position.clone(); assert_eq!(m.get_or_insert_vertex(&p),(i,true)); } }'''),
dict(id="c11-unused-removed",property="C11",needs="vertices used only by faces that were removed",
 breaks="vertices of removed faces count as used",
 edits=[("src/mesh/core.rs","            // Skip removed faces\n            if self.faces[face_idx].removed {\n                continue;\n            }\n            for &v_idx in","            if self.faces[face_idx].half_edge >= self.half_edges.len() {\n                continue;\n            }\n            for &v_idx in")],
 demo=PRE+'''fn main(){ let mut m=Mesh::<Q,3>::new(); for p in [p3(0,0,0),p3(1,0,0),p3(0,1,0)] { m.add_vertex(p); } m.add_triangle(0,1,2); m.remove_triangle(0); m.remove_unused_vertices(); assert_eq!(m.vertices.len(),0); }'''),
dict(id="c11-near-duplicates",property="C11",needs="vertices that nearly coincide",
 breaks="removing duplicates merges vertices that are only close to each other",
 edits=[("src/mesh/core.rs","                    if kernel::are_equal(pos_i, pos_j) {","                    if kernel::are_approximately_equal(pos_i, pos_j) {")],
 demo=PRE+'''fn main(){ let mut m=Mesh::<Q,3>::new(); for p in [p3(0,0,0),Point{coords:[r(1,10000000),q(0),q(0)]},p3(1,0,0)] { m.add_vertex(p); } assert_eq!(m.remove_duplicate_vertices(),0); }'''),
dict(id="c11-abs",property="C11",needs="positions that share a lookup cell by wrapping around, the first with the smaller coordinate",
 breaks="two positions far apart are merged if they fall into the same lookup bucket and the stored one has the smaller coordinate",
 edits=[("src/kernel/predicates.rs","            if diff_f64.abs() > T::point_merge_threshold()","            if diff_f64 > T::point_merge_threshold()")],
 demo=PRE+'''fn main(){ let mut m=Mesh::<Q,3>::new(); let a=p3(0,0,0); let s=0.9e-6f64*(1u64<<42) as f64; let b=Point{coords:[Q::from(s+1e-7),q(0),q(0)]}; let (i,_)=m.get_or_insert_vertex(&a); let (j,old)=m.get_or_insert_vertex(&b); assert!(i!=j&&!old); }'''),
dict(id="c13-obj-digits",property="C13",needs="coordinates with more than six decimals",
 breaks="coordinates are rounded to six decimals when an OBJ file is written",
 edits=[("src/io/obj.rs",'            "v {:?} {:?} {:?}",','            "v {:.6} {:.6} {:.6}",')],
 demo=PRE+'''fn main(){ let mut m=Mesh::<Q,3>::new(); for p in [Point{coords:[Q::from(0.1f64),q(0),q(0)]},Point{coords:[Q::from(1e-9f64),q(1),q(0)]},p3(1,1,1)] { m.add_vertex(p); } m.add_triangle(0,1,2); let f=tmp("m.obj"); cgar::io::obj::write_obj(&m,&f).unwrap(); let n=cgar::io::obj::read_obj::<Q,_>(&f).unwrap(); for i in 0..3 { for k in 0..3 { assert!(n.vertices[i].position[k]==m.vertices[i].position[k]); } } }'''),
dict(id="c13-off-removed",property="C13",needs="a mesh with removed faces written as OFF",
 breaks="the face count of an OFF file includes removed faces",
 edits=[("src/io/off.rs","    let face_count = mesh.faces.iter().filter(|f| !f.removed).count();","    let face_count = mesh.faces.len();")],
 demo=PRE+'''fn main(){ let mut m=quad(); m.remove_triangle(0); let f=tmp("m.off"); cgar::io::off::write_off(&m,&f).unwrap(); assert!(cgar::io::off::read_off::<Q,_>(&f).is_ok()); }'''),
dict(id="c13-off-polygon",property="C13",needs="an OFF file with a face of more than three corners before a triangle",
 breaks="one index too few is skipped for faces that are not triangles",
 edits=[("src/io/off.rs","            for _ in 0..poly_size {","            for _ in 1..poly_size {")],
 demo=PRE+'''fn main(){ let f=tmp("m.off"); std::fs::write(&f,"OFF\\n4 2 0\\n0 0 0\\n1 0 0\\n1 1 0\\n0 1 0\\n4 1 2 3 0\\n3 0 1 2\\n").unwrap(); let m=cgar::io::off::read_off::<Q,_>(&f).unwrap(); assert_eq!(m.faces.len(),1); }'''),
dict(id="c13-stl-order",property="C13",needs="any mesh written as STL",
 breaks="the corners of a face are read in reverse order from an STL file",
 edits=[("src/io/stl.rs","                    mesh.add_triangle(vertices[0], vertices[1], vertices[2]);","                    mesh.add_triangle(vertices[0], vertices[2], vertices[1]);")],
 demo=PRE+'''fn main(){ let m=quad(); let f=tmp("m.stl"); cgar::io::stl::write_stl(&m,&f).unwrap(); let n=cgar::io::stl::read_stl::<Q,_>(&f).unwrap(); let a=n.face_normal(0); let b=m.face_normal(0); assert!(a[2]==b[2]); }'''),
dict(id="c15-degenerate",property="C15",needs="a collapse that flattens a remaining face",
 breaks="the faces at the vertex that goes away are not examined before a collapse",
 edits=[("src/mesh/edge_collapse.rs","        for &f in s0.union(&s1) {","        for &f in s0.iter().filter(|f| !s1.contains(*f)) {")],
 demo=PRE+'''fn main(){ let mut m=Mesh::<Q,3>::new(); for p in [p3(0,0,0),p3(4,0,0),p3(2,3,0),p3(6,3,0),p3(-2,-9,0)] { m.add_vertex(p); } m.add_triangle(0,1,2); m.add_triangle(1,3,2); m.vertices[3].position=Point{coords:[q(0),q(9),q(0)]}; m.vertices[2].position=p3(1,4,0);
 m.vertices[3].position=Point{coords:[q(0),q(8),q(0)]}; /* midpoint (2,0) of 0 1; corners 2=(1,4), 3=(0,8) are on one line with it */ assert!(m.collapse_edge(0,1).is_err()); }'''),
dict(id="c15-link-extra",property="C15",needs="an inner edge whose ends share a neighbour that is not a corner of its two faces",
 breaks="a collapse is accepted if the ends of the edge share further neighbours",
 edits=[("src/mesh/edge_collapse.rs","        let common: AHashSet<_> = set0.intersection(&set1).copied().collect();","        let common: AHashSet<_> = set0.intersection(&set1).copied().filter(|x| Some(*x) == pr.opposite_a || Some(*x) == pr.opposite_b).collect();"),
  ("src/mesh/edge_collapse.rs","        !inter.is_empty()\n","        inter.len() > 1\n")],
 demo=PRE+'''fn main(){ let mut m=Mesh::<Q,3>::new(); for i in 0..6 { m.add_vertex(p3(i,i*i,i*i*i)); } for t in [[0,1,3],[1,2,3],[2,0,3],[1,0,4],[2,1,4],[0,2,4]] { m.add_triangle(t[0],t[1],t[2]); } assert!(m.collapse_edge(0,1).is_err()); }'''),
dict(id="c15-position",property="C15",needs="a collapse with a chosen position",
 breaks="the kept vertex is not moved to the chosen position",
 edits=[("src/mesh/edge_collapse.rs","        self.vertices[u].position = plan.p_star;","        let _ = plan.p_star;")],
 demo=PRE+'''fn main(){ let mut m=Mesh::<Q,3>::new(); for p in [p3(0,0,0),p3(4,0,0),p3(4,4,1),p3(0,4,0)] { m.add_vertex(p); } m.add_triangle(0,1,2); m.add_triangle(0,2,3); m.collapse_edge(0,1).unwrap(); assert!(m.vertices[0].position[0]==q(2)); }'''),
]
