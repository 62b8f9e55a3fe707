// C13: mesh files.
include!("patch.rs");
include!("surfaces.rs");
use cgar::io::{obj::*, off::*, stl::*};
fn choose_off(_: usize) -> usize { 0 }
/// a file in a directory of its own, both removed afterwards
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        loop {
            let d = std::env::temp_dir().join(format!("vc-files-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
            match std::fs::create_dir(&d) {
                Ok(()) => return Scratch(d),
                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => {} // taken by another world
                Err(e) => panic!("scratch directory: {e}"),
            }
        }
    }
    fn file(&self) -> std::path::PathBuf { self.0.join("mesh") }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_file(self.file()); let _ = std::fs::remove_dir(&self.0); } }
const OBJ: usize = 0;
const OFF: usize = 1;
const STL: usize = 2;
fn save<const K: usize>(m: &M<3>, p: &std::path::Path) -> bool { match K { OBJ => write_obj(m, p), OFF => write_off(m, p), _ => write_stl(m, p) }.is_ok() }
fn load<const K: usize>(p: &std::path::Path) -> Option<M<3>> { match K { OBJ => read_obj(p), OFF => read_off(p), _ => read_stl(p) }.ok() }
fn read_text<const K: usize>(s: &str) -> Option<M<3>> {
    let d = Scratch::new();
    std::fs::write(d.file(), s).expect("scratch file");
    load::<K>(&d.file())
}
type Soup = (Vec<Point<S, 3>>, Vec<[usize; 3]>);
/// the mesh read has these vertices and faces (for STL: these faces)
fn is<const K: usize>(m: &M<3>, (ps, ts): &Soup) {
    let live: Vec<usize> = (0..m.faces.len()).filter(|&f| !m.faces[f].removed).collect();
    ensure("as many faces", bool_(live.len() == ts.len()));
    if K != STL {
        ensure("as many vertices", bool_(m.vertices.len() == ps.len()));
        if m.vertices.len() != ps.len() { return; }
        for (v, p) in m.vertices.iter().zip(ps) { ensure("positions of vertices", eqp(&v.position, p)); }
    }
    if live.len() != ts.len() { return; }
    for (&f, t) in live.iter().zip(ts) {
        let c = m.face_vertices(f);
        if K != STL { ensure("corners of faces in order", bool_(canon(c) == canon(*t))); }
        else { ensure("corners of faces in order", or((0..3).map(|r| and((0..3).map(|i| eqp(&m.vertices[c[(i + r) % 3]].position, &ps[t[i]])).collect())).collect())); }
    }
    if K != STL { say("consistent connectivity", inconsistency(m, None)); }
}
fn there_and_back<const K: usize>(m: &M<3>, want: &Soup) {
    let d = Scratch::new();
    ensure("written", bool_(save::<K>(m, &d.file())));
    match load::<K>(&d.file()) { Some(n) => is::<K>(&n, want), None => ensure("read back", ff()) }
}
fn mesh(ps: &[Point<S, 3>], ts: &[[usize; 3]], gone: usize) -> (M<3>, Soup) {
    let mut m = M::<3>::fresh();
    for p in ps { m.vertex(p.clone()); }
    let fs: Vec<usize> = ts.iter().map(|t| m.add_triangle(t[0], t[1], t[2])).collect();
    let mut ts = ts.to_vec();
    if gone < fs.len() { m.remove_triangle(fs[gone]); ts.remove(gone); }
    (m, (ps.to_vec(), ts))
}
/// m 2^e
fn dyadic(m: i64, e: i32) -> S {
    let (mut r, mut b, mut k) = (num(m), if e < 0 { ratio(1, 2) } else { num(2) }, e.unsigned_abs());
    while k > 0 { if k & 1 == 1 { r = &r * &b; } k >>= 1; if k > 0 { b = &b * &b; } }
    r
}
/// every small surface, maybe one face removed, maybe an unused vertex
fn round<const K: usize>() {
    let all = surfaces();
    let ts = &all[choose(all.len())];
    let n = 1 + ts.iter().flatten().max().unwrap();
    let ps: Vec<_> = (0..n + choose(2)).map(spot).collect();
    let (m, want) = mesh(&ps, ts, [usize::MAX, 0, ts.len() - 1][choose(3)]);
    there_and_back::<K>(&m, &want);
}
/// doubles of every kind in a triangle
fn numbers<const K: usize>() {
    let k = [dyadic(1, -1), dyadic(-3, -2), dyadic(6755399441055745, -52), dyadic(-9007199254740991, 900), dyadic(1, -1060), dyadic(5404319552844595, -1000), dyadic(-1, 1000), num(123456789), ratio(-1, 1)];
    let mut pick = || k[choose(k.len())].clone();
    let x = Point { coords: [pick(), pick(), pick()] };
    let (m, want) = mesh(&[x, spot(1), spot(2)], &[[0, 1, 2]], usize::MAX);
    there_and_back::<K>(&m, &want);
}
fn any_numbers<const K: usize>() {
    let all = surfaces();
    let ts = &all[choose(all.len())];
    let n = 1 + ts.iter().flatten().max().unwrap();
    let mut pick = || match choose(4) { 0 => dyadic(choose(1 << 30) as i64 * (1 << 22) + choose(1 << 22) as i64 - (1i64 << 51), choose(700) as i32 - 400), 1 => dyadic(choose(1 << 30) as i64 - (1 << 29), -(choose(40) as i32)), 2 => num(choose(21) as i64 - 10), _ => dyadic(choose(1 << 20) as i64, choose(60) as i32 - 30) };
    let ps: Vec<Point<S, 3>> = (0..n).map(|_| Point { coords: [pick(), pick(), pick()] }).collect();
    let (m, want) = mesh(&ps, ts, choose(2 * ts.len()));
    there_and_back::<K>(&m, &want);
}
/// numbers as text
fn notation() -> (String, S) {
    let (m, e) = (choose(2000) as i64 - 1000, choose(7) as i32 - 3);
    let v = &num(m) * &dyadic(1, -2);
    let d = format!("{}{}.{:02}", if m < 0 { "-" } else { "" }, m.abs() / 4, m.abs() % 4 * 25);
    match choose(4) {
        0 => (d, v),
        1 => (format!("{}{}", if m < 0 { "" } else { "+" }, d), v),
        2 => (format!("{}e{}", m * 25, -2), v),
        _ => { let mut w = num(m); for _ in 0..e.max(0) { w = &w * &num(10); } (format!("{}E{}", m, e.max(0)), w) }
    }
}
fn gap() -> &'static str { [" ", "  ", "\t", " \t "][choose(4)] }
fn eol() -> &'static str { ["\n", "\r\n", "  \n", "\n\n", "\n \t\n"][choose(5)] }
fn layout<const K: usize>() {
    let all = surfaces();
    let ts = all[choose(all.len().min(60))].clone();
    let n = 1 + ts.iter().flatten().max().unwrap();
    let mut ps = vec![];
    let txt: Vec<[String; 3]> = (0..n).map(|_| { let c: [(String, S); 3] = std::array::from_fn(|_| notation()); ps.push(Point { coords: std::array::from_fn(|i| c[i].1.clone()) }); c.map(|x| x.0) }).collect();
    let mut s = String::new();
    let lead = |s: &mut String| if choose(3) == 0 { s.push_str(gap()) };
    let note = |s: &mut String| match K {
        OBJ => if choose(2) == 0 { s.push_str(["# v 1 2 3\n", "#f 1 2 3\n", "vn 0 0 1\n", "vt 0.5 0.5\n", "o thing\n", "g part\n", "s off\n", "usemtl m\n", "\n"][choose(9)]) },
        OFF => if choose(2) == 0 { s.push_str(["# 1 2 3\n", "\n", "#\n", " # 3 0 1 2\n"][choose(4)]) },
        _ => if choose(2) == 0 { s.push_str(["\n", "  \n", "outer loop\n"][choose(3)]) },
    };
    match K {
        OBJ => {
            for c in &txt { note(&mut s); lead(&mut s); s.push_str(&format!("v{}{}{}{}{}{}{}", gap(), c[0], gap(), c[1], gap(), c[2], eol())); }
            for t in &ts { note(&mut s); lead(&mut s); s.push_str(&format!("f{}{}{}{}{}{}{}", gap(), t[0] + 1, gap(), t[1] + 1, gap(), t[2] + 1, eol())); }
        }
        OFF => {
            note(&mut s);
            let skipped = choose(3);
            let brk = || if choose(6) == 0 { format!(" # 7 7 {}", eol()) } else if choose(5) == 0 { eol().to_string() } else { gap().to_string() };
            s.push_str(&format!("OFF{}{}{}{}{}{}{}", eol(), n, brk(), ts.len() + skipped, brk(), choose(99), eol()));
            for c in &txt { note(&mut s); lead(&mut s); s.push_str(&format!("{}{}{}{}{}{}", c[0], brk(), c[1], brk(), c[2], eol())); }
            let mut poly = vec![false; ts.len()];
            for _ in 0..skipped { poly.insert(choose(poly.len() + 1), true); }
            let mut it = ts.iter();
            for p in poly { note(&mut s); if p { s.push_str(&format!("4{}0 1 2 0{}", gap(), eol())); } else { let t = it.next().unwrap(); s.push_str(&format!("3{}{}{}{}{}{}{}", brk(), t[0], brk(), t[1], brk(), t[2], eol())); } }
        }
        _ => {
            s.push_str(["solid\n", "solid a b\n", " solid mesh \r\n"][choose(3)]);
            for t in &ts {
                note(&mut s); lead(&mut s);
                s.push_str(&format!("facet normal 0 0 1{}outer loop{}", eol(), eol()));
                for &v in t { lead(&mut s); s.push_str(&format!("vertex{}{}{}{}{}{}{}", gap(), txt[v][0], gap(), txt[v][1], gap(), txt[v][2], eol())); }
                s.push_str(&format!("endloop{}endfacet{}", eol(), eol()));
            }
            s.push_str("endsolid\n");
        }
    }
    match read_text::<K>(&s) { Some(m) => is::<K>(&m, &(ps, ts)), None => ensure("legal text is read", ff()) }
}
/// two triangles as text, one word of it cut off or spoilt
fn spoilt<const K: usize>() {
    let (lines, words): (&[&str], &[(usize, usize)]) = match K {
        OBJ => (&["v 0 0 0", "v 1 0 0", "v 0 1 0", "v 1 1 0", "f 1 2 3", "f 2 4 3"], &[(0, 1), (0, 2), (0, 3), (2, 1), (3, 2), (3, 3), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (5, 3)]),
        OFF => (&["OFF", "4 2 0", "0 0 0", "1 0 0", "0 1 0", "1 1 0", "3 0 1 2", "3 1 3 2"], &[(0, 0), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2), (5, 0), (5, 1), (5, 2), (6, 0), (6, 1), (6, 2), (6, 3), (7, 0), (7, 1), (7, 2), (7, 3)]),
        _ => (&["solid m", "facet normal 0 0 1", "outer loop", "vertex 0 0 0", "vertex 1 0 0", "vertex 0 1 0", "endloop", "endfacet", "endsolid m"], &[(3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (5, 3)]),
    };
    let (l, w) = words[choose(words.len())];
    let how = choose(4);
    let mut out = vec![];
    for (i, x) in lines.iter().enumerate() {
        let mut ws: Vec<String> = x.split(' ').map(|s| s.to_string()).collect();
        if i == l {
            match how {
                0 => ws[w] = "x".into(),
                1 => ws[w] = "1,5".into(),
                2 => ws[w] = "".into(),
                _ => ws.truncate(w),
            }
        }
        out.push(ws.join(" "));
        // the end is missing; a word left out in the middle shifts the rest of an OFF file
        if i == l && how >= 2 && K == OFF { if how == 2 && w + 1 < ws.len() { out.pop(); ws.truncate(w); out.push(ws.join(" ")); } break; }
    }
    ensure("an error is reported", bool_(read_text::<K>(&out.join("\n")).is_none()));
}
/// faces with corners that do not exist
fn no_such_vertex<const K: usize>() {
    let n = 3 + choose(3);
    let base = if K == OBJ { 1 } else { 0 };
    let mut t = [0, 1, 2].map(|v| (v + base) as i64);
    t[choose(3)] = [n as i64 + base as i64, 1000, -1, if K == OBJ { 0 } else { n as i64 }][choose(4)];
    let vs: String = (0..n).map(|i| format!("{}{} {} 0\n", if K == OBJ { "v " } else { "" }, i, i * i)).collect();
    let s = if K == OBJ { format!("{}f {} {} {}\n", vs, t[0], t[1], t[2]) } else { format!("OFF\n{} 1 0\n{}3 {} {} {}\n", n, vs, t[0], t[1], t[2]) };
    ensure("an error is reported", bool_(read_text::<K>(&s).is_none()));
}
fn no_file<const K: usize>() { let d = Scratch::new(); ensure("an error is reported", bool_(load::<K>(&d.file()).is_none())); }
const W: [&[&str]; 3] = [&["write_obj", "read_obj"], &["write_off", "read_off"], &["write_stl", "read_stl"]];
const R: [&[&str]; 3] = [&["read_obj"], &["read_off"], &["read_stl"]];
pub fn list() -> Vec<Decl> {
    let b = "connected surfaces of at most 7 vertices, and of 8 vertices and at most 10 faces";
    let t = "one triangle, coordinates out of nine doubles";
    let x = "texts of two triangles, one word spoilt";
    vec![
        proof("round trip, OBJ", W[OBJ], round::<OBJ>).within(b),
        proof("round trip, OFF", W[OFF], round::<OFF>).within(b),
        proof("round trip, STL", W[STL], round::<STL>).within(b),
        proof("coordinates, OBJ", W[OBJ], numbers::<OBJ>).within(t),
        proof("coordinates, OFF", W[OFF], numbers::<OFF>).within(t),
        proof("coordinates, STL", W[STL], numbers::<STL>).within(t),
        proof("malformed text, OBJ", R[OBJ], spoilt::<OBJ>).within(x),
        proof("malformed text, OFF", R[OFF], spoilt::<OFF>).within(x),
        proof("malformed text, STL", R[STL], spoilt::<STL>).within(x),
        proof("corners that do not exist, OBJ", R[OBJ], no_such_vertex::<OBJ>).within("one face"),
        proof("corners that do not exist, OFF", R[OFF], no_such_vertex::<OFF>).within("one face"),
        proof("missing file, OBJ", R[OBJ], no_file::<OBJ>).within("one path"),
        proof("missing file, OFF", R[OFF], no_file::<OFF>).within("one path"),
        proof("missing file, STL", R[STL], no_file::<STL>).within("one path"),
        bounded("any coordinates, OBJ", W[OBJ], any_numbers::<OBJ>),
        bounded("any coordinates, OFF", W[OFF], any_numbers::<OFF>),
        bounded("any coordinates, STL", W[STL], any_numbers::<STL>),
        bounded("layouts, OBJ", R[OBJ], layout::<OBJ>),
        bounded("layouts, OFF", R[OFF], layout::<OFF>),
        bounded("layouts, STL", R[STL], layout::<STL>),
    ]
}
