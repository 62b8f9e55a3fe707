PRE='''#![allow(unused_imports,dead_code)]
use cgar::geometry::point::{Point,PointOps}; use cgar::geometry::vector::*; use cgar::geometry::segment::*; use cgar::geometry::tri_tri_intersect::*;
use cgar::numeric::cgar_rational::CgarRational as Q; use cgar::numeric::scalar::Scalar;
type P=Point<Q,3>;
fn q(x:i32)->Q{Q::from_num_den(x,1)} fn r(a:i32,b:i32)->Q{Q::from_num_den(a,b)}
fn p3(x:i32,y:i32,z:i32)->P{Point{coords:[q(x),q(y),q(z)]}} fn p2(x:i32,y:i32)->Point<Q,2>{Point{coords:[q(x),q(y)]}}
use TriTriIntersectionResult::*;
fn eq(a:&P,b:&P)->bool{(0..3).all(|k|a[k]==b[k])}
'''
SEEDS=[
dict(id="c05-clip-leave",property="C05",needs="an edge of one triangle lying in the plane of the other and leaving it across two of its edge lines",
 breaks="clipping an in-plane edge keeps the last crossing instead of the first one, so the reported end lies outside the triangle",
 edits=[("src/geometry/tri_tri_intersect.rs","                if (&t_hit - &t1).is_negative() {\n                    t1 = t_hit;\n                }","                t1 = t_hit;")],
 demo=PRE+'''fn main(){ let t=[p3(0,0,0),p3(4,0,0),p3(0,4,0)]; // in-plane edges leaving over two lines, in every direction
 for rot in 0..3 { for (a,b) in [(p3(1,1,0),p3(9,-3,0)),(p3(1,1,0),p3(-3,9,0)),(p3(1,1,0),p3(-5,-6,0)),(p3(1,2,0),p3(9,-4,0)),(p3(2,1,0),p3(-4,9,0)),(p3(1,1,0),p3(-6,-5,0))] { let c=p3(0,0,5);
  let tr=[&t[rot],&t[(rot+1)%3],&t[(rot+2)%3]];
  match tri_tri_intersection(&[&a,&b,&c],&tr) { Coplanar(s)|Proper(s)=>for e in [&s.a,&s.b] { assert!(e[0]>=q(0)&&e[1]>=q(0)&&&e[0]+&e[1]<=q(4)); }, _=>panic!() } } } }'''),
dict(id="c05-precomp-pair",property="C05",needs="the precomputed variant with the first and third corner of a triangle exactly on the plane of the other",
 breaks="the precomputed variant clips the wrong edge when the first and last corner lie in the plane of the other triangle",
 edits=[("src/geometry/tri_tri_intersect.rs","        // Coplanar segment of P against triangle Q\n        let (i, j) = match zero_p {\n            [true, true, false] => (0, 1),\n            [true, false, true] => (0, 2),","        // Coplanar segment of P against triangle Q\n        let (i, j) = match zero_p {\n            [true, true, false] => (0, 1),\n            [true, false, true] => (0, 1),")],
 nth=0,
 demo=PRE+'''fn main(){ let t=[p3(0,0,0),p3(4,0,0),p3(0,4,0)]; let s=[p3(1,1,0),p3(1,1,5),p3(2,1,0)];
 let (a,b)=([&s[0],&s[1],&s[2]],[&t[0],&t[1],&t[2]]);
 match tri_tri_intersection_with_precomp(&a,&b,&TriPrecomp::new(&a),&TriPrecomp::new(&b)) { Coplanar(s)|Proper(s)=>for e in [&s.a,&s.b] { assert!(e[2]==q(0)&&e[1]==q(1)); }, _=>panic!() } }'''),
dict(id="c05-touch",property="C05",needs="a triangle with one corner exactly on the plane of the other, its other corners strictly on one side",
 breaks="a triangle that touches the other with one corner is reported as disjoint",
 edits=[("src/geometry/tri_tri_intersect.rs","        let prod = da * db;\n        if prod.is_negative_or_zero() && !(da.is_zero() && db.is_zero()) {\n            let denom = da - db; // da - db","        let prod = da * db;\n        if prod.is_negative() && !(da.is_zero() && db.is_zero()) {\n            let denom = da - db; // da - db")],
 demo=PRE+'''fn main(){ let t=[p3(0,0,0),p3(4,0,0),p3(0,4,0)]; let s=[p3(1,1,0),p3(1,2,3),p3(2,1,3)];
 match tri_tri_intersection(&[&s[0],&s[1],&s[2]],&[&t[0],&t[1],&t[2]]) { Proper(s)|Coplanar(s)=>assert!(eq(&s.a,&p3(1,1,0))), _=>panic!() } }'''),
dict(id="c05-hull",property="C05",needs="coplanar triangles whose common polygon has two corners with the same first coordinate in a particular order",
 breaks="the corners of a coplanar overlap are ordered by one coordinate only, so the outline loses or repeats corners when two share it",
 edits=[("src/geometry/tri_tri_intersect.rs","            let dy = &pts[i].coords[1] - &pts[j].coords[1];\n            if dy.is_negative() {\n                Ordering::Less","            let dy = &pts[i].coords[1] - &pts[j].coords[1];\n            if dy.is_negative() {\n                Ordering::Equal")],
 demo=PRE+'''fn main(){ let g=[(0,0),(0,2),(0,1),(2,0),(2,2),(2,1),(1,1),(1,3)]; let mut st:u64=12345; for _ in 0..4000 { let mut v=g.to_vec(); for k in (1..v.len()).rev() { st=st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.swap(k,((st>>33) as usize)%(k+1)); } v.truncate(5);
 let pts:Vec<Point<Q,2>>=v.iter().map(|&(x,y)|p2(x,y)).collect(); let h=convex_hull_2d_indices(&pts); if h.len()<3 { continue; }
 for w in 0..h.len() { let (a,b)=(&pts[h[w]],&pts[h[(w+1)%h.len()]]); for p in &pts { let s=&(&(&b[0]-&a[0])*&(&p[1]-&a[1]))-&(&(&b[1]-&a[1])*&(&p[0]-&a[0])); assert!(s>=q(0)); } } } }'''),
]
