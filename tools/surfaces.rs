use std::collections::*;
fn main(){
 let a:Vec<usize>=std::env::args().skip(1).map(|x|x.parse().unwrap()).collect();
 let (n,kmax)=(a[0],a[1]);
 let mut tr=vec![]; let mut id=HashMap::new();
 for x in 0..n{for y in 0..n{for z in 0..n{ if x<y&&x<z&&y!=z {id.insert((x,y,z),tr.len());tr.push([x,y,z]);}}}}
 let canon=|t:[usize;3]|{let k=(0..3).min_by_key(|&i|t[i]).unwrap();(t[k],t[(k+1)%3],t[(k+2)%3])};
 // perms
 fn perms(n:usize)->Vec<Vec<usize>>{ if n==0{return vec![vec![]];} let mut r=vec![]; for p in perms(n-1){for i in 0..n{let mut q=p.clone();q.insert(i,n-1);r.push(q);}} r}
 let ps=perms(n);
 let tab:Vec<Vec<u8>>=ps.iter().map(|p|tr.iter().map(|t|id[&canon([p[t[0]],p[t[1]],p[t[2]]])] as u8).collect()).collect();
 let bits=|m:u128|{let mut v=vec![];let mut m=m;while m!=0{let b=m.trailing_zeros() as usize;v.push(b);m&=m-1;}v};
 let cf=|m:u128|{let b=bits(m);let mut best=u128::MAX;for t in &tab{let mut x=0u128;for &i in &b{x|=1<<t[i];}if x<best{best=x;}}best};
 let dirs=|t:&[usize;3]|[(t[0],t[1]),(t[1],t[2]),(t[2],t[0])];
 let man=|m:u128|{ let ts:Vec<[usize;3]>=bits(m).iter().map(|&i|tr[i]).collect();
   for v in 0..n { // outgoing link path: each tri gives (a->b) opposite v
     let l:Vec<(usize,usize)>=ts.iter().filter(|t|t.contains(&v)).map(|t|{let i=t.iter().position(|x|*x==v).unwrap();(t[(i+1)%3],t[(i+2)%3])}).collect();
     if l.is_empty(){continue;}
     let mut start=l[0].0; for _ in 0..l.len(){ if let Some(p)=l.iter().find(|p|p.1==start){start=p.0;} }
     let mut c=start;let mut k=0; loop{ match l.iter().find(|p|p.0==c){Some(p)=>{c=p.1;k+=1;if c==start{break;}},None=>break} }
     if k!=l.len(){return false;}
   } true};
 let mut cur:HashSet<u128>=HashSet::new(); cur.insert(cf(1));
 let mut tot=0;
 let mut out:Vec<u128>=vec![];
 for k in 1..=kmax{
  let m:Vec<u128>=cur.iter().copied().filter(|&x|man(x)).collect(); tot+=m.len(); 
  let closed=m.iter().filter(|&&x|{let d:HashSet<_>=bits(x).iter().flat_map(|&i|dirs(&tr[i])).collect();d.iter().all(|e|d.contains(&(e.1,e.0)))}).count();
  eprintln!("{} faces: {} sets {} manifold {} closed",k,cur.len(),m.len(),closed); out.extend(m);
  if k==kmax{break;}
  let mut nx=HashSet::new(); let mut seen=HashSet::new();
  for &s in &cur{ let b=bits(s); let d:HashSet<_>=b.iter().flat_map(|&i|dirs(&tr[i])).collect();
   for i in 0..tr.len(){ if s>>i&1==1{continue;} let e=dirs(&tr[i]); if e.iter().any(|x|d.contains(x)){continue;} if !e.iter().any(|x|d.contains(&(x.1,x.0))){continue;} let z=s|1<<i; if seen.insert(z){nx.insert(cf(z));} } }
  cur=nx;
 }
 eprintln!("total {}",tot);
 out.sort_by_key(|x|(x.count_ones(),*x));
 for s in out{ println!("{}",bits(s).iter().map(|&i|format!("{}{}{}",tr[i][0],tr[i][1],tr[i][2])).collect::<Vec<_>>().join(" ")); }
}
