exec(open('/verif/tools/seeds/mesh.py').read().split('SEEDS=[')[0])
PRE+='''
use cgar::operations::triangulation::delaunay::Delaunay; use cgar::mesh_processing::batching::FaceJobUV;
fn pts(v:&[(i32,i32)])->Vec<Point<Q,2>>{ v.iter().map(|p|p2(p.0,p.1)).collect() }
fn job(v:&[(i32,i32)],s:&[[usize;2]])->FaceJobUV<Q>{ FaceJobUV{face_id:0,verts_global:(0..v.len()).collect(),points_uv:pts(v),segments:s.to_vec()} }
fn area2(v:&[(i32,i32)],d:&Delaunay<Q>)->i32{ d.triangles.iter().map(|t|{ let (a,b,c)=(v[t.0],v[t.1],v[t.2]); let s=(b.0-a.0)*(c.1-a.1)-(b.1-a.1)*(c.0-a.0); assert!(s>0,"clockwise"); s }).sum() }
fn edge(d:&Delaunay<Q>,a:usize,b:usize)->bool{ d.triangles.iter().any(|t|{ let t=[t.0,t.1,t.2]; t.contains(&a)&&t.contains(&b) }) }
fn batch(v:&[(i32,i32)],s:&[[usize;2]])->Delaunay<Q>{ Delaunay::build_batch_with_constraints_bowyer_watson(&[job(v,s)],&Mesh::<Q,3>::new()).pop().unwrap() }
fn single(v:&[(i32,i32)],s:&[[usize;2]])->Delaunay<Q>{ Delaunay::build_with_constraints_bowyer_watson(&pts(v),s,&Mesh::<Q,3>::new(),&job(v,s)) }

fn tn(a:(i32,i32),b:(i32,i32),c:(i32,i32))->i32{ ((b.0-a.0)*(c.1-a.1)-(b.1-a.1)*(c.0-a.0)).signum() }
fn on(a:(i32,i32),b:(i32,i32),p:(i32,i32))->bool{ tn(a,b,p)==0 && (p.0-a.0)*(p.0-b.0)+(p.1-a.1)*(p.1-b.1)<=0 }
/// sets of points of a grid with a few constraints that do not cross
fn many(){ let mut s=12345u64; let mut rnd=|n:u64|{ s=s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s>>33)%n };
 for _ in 0..1500 { let mut v:Vec<(i32,i32)>=vec![]; let k=5+rnd(7); for _ in 0..k { let p=(rnd(7) as i32,rnd(7) as i32); if !v.contains(&p) { v.push(p); } } if (2..v.len()).all(|i|tn(v[0],v[1],v[i])==0) {continue}
  let mut c:Vec<[usize;2]>=vec![]; for _ in 0..rnd(8) { let (i,j)=(rnd(v.len() as u64) as usize,rnd(v.len() as u64) as usize); if i!=j && !c.iter().any(|d|tn(v[i],v[j],v[d[0]])*tn(v[i],v[j],v[d[1]])<0 && tn(v[d[0]],v[d[1]],v[i])*tn(v[d[0]],v[d[1]],v[j])<0) { c.push([i,j]); } }
  let n=area2(&v,&Delaunay::build(&pts(&v)));
  for d in [batch(&v,&c),single(&v,&c)] { assert_eq!(area2(&v,&d),n); for [a,b] in &c { let mut on:Vec<usize>=(0..v.len()).filter(|k|on(v[*a],v[*b],v[*k])).collect(); on.sort_by_key(|k|v[*k]); for w in on.windows(2) { assert!(edge(&d,w[0],w[1])); } } } } }
'''
D='src/operations/triangulation/delaunay.rs'
SEEDS=[
dict(id="c12-chain-end",property="C12",needs="a constraint through another point, its last piece not an edge already",
 breaks="the last piece of a constraint that passes through other points is not inserted",
 edits=[(D,"    if prev != b {\n        out.push([prev, b]);\n    }","    if prev == a {\n        out.push([prev, b]);\n    }")],
 demo=PRE+'''fn main(){ let v=[(0,0),(12,0),(3,0),(7,1),(7,-1),(5,6),(6,-7)]; for d in [batch(&v,&[[0,1]]),single(&v,&[[0,1]])] { assert!(edge(&d,0,2)); assert!(edge(&d,2,1)); } }'''),
dict(id="c12-on-segment",property="C12",needs="a vertical constraint with a further point above its end",
 breaks="points above the upper end of a vertical constraint are taken to lie on it",
 edits=[(D,"    p[0] >= minx && p[0] <= maxx && p[1] >= miny && p[1] <= maxy\n","    p[0] >= minx && p[0] <= maxx && p[1] >= miny && (p[1] <= maxy || minx == maxx)\n")],
 demo=PRE+'''fn main(){ let v=[(0,0),(0,8),(-1,4),(1,3),(0,12),(5,6),(-5,5)]; let b=batch(&v,&[]); assert!(!edge(&b,0,1)); for d in [batch(&v,&[[0,1]]),single(&v,&[[0,1]])] { assert!(edge(&d,0,1)); let n=area2(&v,&d); assert_eq!(n,area2(&v,&b)); } }'''),
dict(id="c12-retain",property="C12",nth=1,needs="any set of points",
 breaks="triangles at a corner of the bounding triangle are kept",
 edits=[(D,"triangles.retain(|t| t.0 < s0 && t.1 < s0 && t.2 < s0);","triangles.retain(|t| t.0 < s0 && t.1 <= s0 && t.2 < s0);")],
 demo=PRE+'''fn main(){ let v=[(0,0),(6,1),(5,7),(1,6),(3,3)]; for t in &Delaunay::build(&pts(&v)).triangles { assert!(t.0<5&&t.1<5&&t.2<5); } for t in &Delaunay::build(&pts(&v[1..])).triangles { assert!(t.0<4&&t.1<4&&t.2<4); } }'''),
]
