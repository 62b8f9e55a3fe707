//! Path-exploring verification-condition generator.
//!
//! The code under test is executed on symbolic scalars. Each sign query that is not decided by the
//! path so far forks; a path is re-executed from the start with a recorded decision prefix. At the end of
//! a path every `ensure` becomes the obligation "requires and path conditions imply formula".
use crate::poly::{Mono, Poly};
use ahash::{AHashMap, AHashSet};
use rug::Rational;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub fn flip_mask(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}

/// Panic payloads used for control flow.
pub struct Infeasible;
pub struct Unsupported(pub String);
pub struct Budget;

#[derive(Clone, Debug)]
pub enum F {
    True,
    False,
    /// sign(num * product(dens)) in mask
    Atom(Poly, Rc<Vec<Poly>>, u8),
    And(Vec<F>),
    Or(Vec<F>),
    Not(Box<F>),
}

#[derive(Clone)]
struct Dec {
    chosen: u8,
    /// alternatives not yet explored
    rest: Vec<u8>,
    /// whether this decision pushed a solver level
    pushed: bool,
}

pub struct Z3 {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub queries: u64,
    pub time: Duration,
}
impl Z3 {
    pub fn new(prog: &str, args: &[&str]) -> Z3 {
        let mut child = Command::new(prog)
            .args(args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start solver");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Z3 { child, inp, out, queries: 0, time: Duration::ZERO }
    }
    pub fn send(&mut self, s: &str) {
        self.inp.write_all(s.as_bytes()).expect("solver pipe");
        self.inp.write_all(b"\n").unwrap();
    }
    pub fn line(&mut self) -> String {
        let mut s = String::new();
        self.out.read_line(&mut s).expect("solver read");
        s.trim().to_string()
    }
    pub fn check(&mut self) -> String {
        let t = Instant::now();
        self.send("(check-sat)");
        self.inp.flush().unwrap();
        let mut r = self.line();
        while !(r == "sat" || r == "unsat" || r == "unknown" || r.is_empty()) {
            if r.starts_with("(error") {
                eprintln!("solver: {}", r);
                if std::env::var("VC_DEBUG").is_ok() {
                    panic!("solver error");
                }
            }
            r = self.line();
        }
        self.queries += 1;
        self.time += t.elapsed();
        r
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub infeasible_paths: u64,
    pub obligations: u64,
    pub by_backend: std::collections::BTreeMap<String, u64>,
    pub forks: u64,
    pub solver_queries: u64,
    pub solver_ms: u64,
    /// double approximations of symbolic values that were asked for
    pub approx_used: u64,
    pub reached: std::collections::BTreeMap<String, u64>,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub label: String,
    pub detail: String,
    /// values of the inputs in order of creation (solver model), if any
    pub model: Option<Vec<Rational>>,
    pub choices: Vec<usize>,
}

type Split = Rc<(Vec<(Poly, u32)>, Poly)>;
/// factorisations already computed, per set of factors
#[derive(Default)]
struct Splits {
    cur: Option<usize>,
    sets: Vec<(Vec<Poly>, AHashMap<Poly, Split>)>,
}
#[derive(Default)]
struct Level {
    facts: AHashSet<(Poly, u8)>,
    monos: Vec<usize>,
}

/// a symbolic finite double (used by the extracted numeric code only)
pub struct Dbl {
    pub v: crate::sym::Sym,
    /// exact values this double was rounded (false) or truncated (true) from
    pub pre: Vec<(crate::sym::Sym, bool)>,
    pub gap: Option<crate::sym::Sym>,
    pub below: Option<crate::sym::Sym>,
}
type Key = (Poly, Vec<Poly>);

pub struct Ctx {
    pub dbls: Vec<Dbl>,
    pub dbl_ids: AHashMap<Key, u32>,
    pub rounded: AHashMap<(Key, bool), Result<u32, f64>>,
    pub truncated: AHashMap<Key, Result<u32, f64>>,
    pub denoms: AHashMap<Key, crate::sym::Sym>,
    pub quots: AHashMap<Key, crate::sym::Sym>,
    pub rats: Vec<(crate::sym::Sym, crate::sym::Sym)>,
    pub idents: Vec<crate::sym::Sym>,
    pub zero_sign: AHashMap<u32, bool>,
    /// callees are replaced by their contracts where the extraction allows it
    pub modular: bool,
    pub ghosts: AHashMap<(Result<u32, u64>, Result<u32, u64>), crate::sym::Sym>,

    pub names: Vec<String>,
    pub path: Vec<(Poly, u8)>,
    signs: AHashMap<Poly, u8>,
    lemmas: Vec<(Poly, u8)>,
    extra: Vec<F>,
    pub hints: Vec<Poly>,
    /// canonical polynomials to factor out of every value (set by contracts)
    pub factors: Vec<Poly>,
    splits: RefCell<Splits>,
    pub merge_zero: bool,
    pub whole_line: bool,
    /// refutations by the nonlinear solver on the small polynomials of a path
    refuted: AHashMap<String, bool>,
    /// answers given to requests for doubles, in order (then none)
    pub script: Option<std::collections::VecDeque<Option<f64>>>,
    trace: Vec<Dec>,
    pos: usize,
    pub choices: Vec<usize>,
    z3: Z3,
    mono_ids: AHashMap<Mono, usize>,
    mono_rev: Vec<Mono>,
    mono_even: Vec<bool>,
    mono_asserted: Vec<bool>,
    levels: Vec<Level>,
    obligations: Vec<(String, F)>,
    pub approx: AHashMap<(Poly, Vec<Poly>), Option<f64>>,
    pub intervals: AHashMap<(Poly, Vec<Poly>), usize>,
    pub approx_mode: u8,
    pub approx_set: Vec<f64>,
    pub stats: Stats,
    pub deadline: Instant,
    pub max_forks: usize,
    pub expo_choices: Vec<usize>,
}

thread_local! {
    pub static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}
pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no symbolic context")))
}

pub fn rat_smt(r: &Rational) -> String {
    let n = r.numer();
    let d = r.denom();
    let ns = if *n < 0 { format!("(- {}.0)", rug::Integer::from(-n)) } else { format!("{}.0", n) };
    if *d == 1 { ns } else { format!("(/ {} {}.0)", ns, d) }
}

impl Ctx {
    pub fn new(deadline: Instant) -> Ctx {
        let mut z3 = Z3::new("z3", &["-in", "-smt2"]);
        z3.send("(set-option :global-declarations true)\n(set-option :timeout 3000)\n(set-logic QF_LRA)");
        Ctx {
            dbls: vec![],
            dbl_ids: AHashMap::new(),
            rounded: AHashMap::new(),
            truncated: AHashMap::new(),
            denoms: AHashMap::new(),
            quots: AHashMap::new(),
            rats: vec![],
            idents: vec![],
            zero_sign: AHashMap::new(),
            modular: false,
            ghosts: AHashMap::new(),
            names: vec![],
            path: vec![],
            signs: AHashMap::new(),
            lemmas: vec![],
            extra: vec![],
            hints: vec![],
            factors: vec![],
            splits: Default::default(),
            merge_zero: false,
            whole_line: false,
            refuted: AHashMap::new(),
            script: None,
            trace: vec![],
            pos: 0,
            choices: vec![],
            z3,
            mono_ids: AHashMap::new(),
            mono_rev: vec![],
            mono_even: vec![],
            mono_asserted: vec![],
            levels: vec![Level::default()],
            obligations: vec![],
            approx: AHashMap::new(),
            intervals: AHashMap::new(),
            approx_mode: 0,
            approx_set: vec![0.0, 1.0, -1.0],
            stats: Stats::default(),
            deadline,
            max_forks: 4000,
            expo_choices: vec![],
        }
    }
    fn mono_name(&mut self, m: &Mono) -> String {
        if let Some(i) = self.mono_ids.get(m) {
            return format!("m{}", i);
        }
        let i = self.mono_rev.len();
        self.mono_ids.insert(m.clone(), i);
        self.mono_rev.push(m.clone());
        self.z3.send(&format!("(declare-const m{} Real)", i));
        self.mono_even.push(m.chunks(2).all(|c| c.len() == 2 && c[0] == c[1]));
        self.mono_asserted.push(false);
        format!("m{}", i)
    }
    /// even monomials are squares: state it once per live solver level
    fn even_fact(&mut self, m: &Mono) {
        let i = self.mono_ids[m];
        if self.mono_even[i] && !self.mono_asserted[i] {
            self.mono_asserted[i] = true;
            self.levels.last_mut().unwrap().monos.push(i);
            self.z3.send(&format!("(assert (>= m{} 0.0))", i));
        }
    }
    fn pop_level(&mut self) {
        self.z3.send("(pop)");
        let l = self.levels.pop().unwrap();
        for i in l.monos {
            self.mono_asserted[i] = false;
        }
    }
    pub fn lin(&mut self, p: &Poly) -> String {
        if p.is_zero() {
            return "0.0".into();
        }
        for (m, _) in p.0.iter() {
            if !m.is_empty() {
                self.mono_name(m);
                self.even_fact(m);
            }
        }
        let mut s = String::from("(+");
        for (m, c) in p.0.iter() {
            if m.is_empty() {
                s.push(' ');
                s.push_str(&rat_smt(c));
            } else if *c == 1 {
                s.push(' ');
                s.push_str(&self.mono_name(m));
            } else {
                let n = self.mono_name(m);
                s.push_str(&format!(" (* {} {})", rat_smt(c), n));
            }
        }
        s.push_str(" 0.0)");
        s
    }
    pub fn atom_smt(e: &str, mask: u8) -> String {
        match mask {
            0 => "false".into(),
            NEG => format!("(< {} 0.0)", e),
            ZERO => format!("(= {} 0.0)", e),
            POS => format!("(> {} 0.0)", e),
            3 => format!("(<= {} 0.0)", e),
            6 => format!("(>= {} 0.0)", e),
            5 => format!("(not (= {} 0.0))", e),
            _ => "true".into(),
        }
    }
    /// lemma: sign(p) in mask holds universally (given facts already on the path)
    pub fn lemma(&mut self, p: &Poly, mask: u8) {
        if p.as_const().is_some() || p.len() > 400 {
            return;
        }
        let (c, f) = p.canon();
        let mask = if f < 0 { flip_mask(mask) } else { mask };
        let cur = self.signs.get(&c).copied().unwrap_or(7);
        if cur & mask == cur {
            return;
        }
        self.signs.insert(c.clone(), cur & mask);
        self.lemmas.push((c, mask));
    }
    fn flush_lemmas(&mut self) {
        let mut i = 0;
        // note: encoding may add further (even-monomial) lemmas
        while i < self.lemmas.len() {
            let (p, m) = self.lemmas[i].clone();
            i += 1;
            let key = (p, m);
            if self.levels.iter().any(|l| l.facts.contains(&key)) {
                continue;
            }
            let e = self.lin(&key.0);
            let a = Self::atom_smt(&e, m);
            self.z3.send(&format!("(assert {})", a));
            self.levels.last_mut().unwrap().facts.insert(key);
        }
        self.lemmas.clear();
    }
    fn feasible(&mut self, p: &Poly, mask: u8) -> bool {
        self.flush_lemmas();
        let e = self.lin(p);
        self.z3.send("(push)");
        self.z3.send(&format!("(assert {})", Self::atom_smt(&e, mask)));
        let r = self.z3.check();
        self.z3.send("(pop)");
        if r != "unsat" && !self.factors.is_empty() && p.len() <= 16 {
            let e = self.nl(p);
            return !self.refute_small(&Self::atom_smt(&e, mask), 400);
        }
        r != "unsat"
    }
    /// is `q` inconsistent with the facts of the path that are small polynomials?
    fn refute_small(&mut self, q: &str, tmo: u64) -> bool {
        let mut lines: Vec<String> = vec![];
        for (p, _) in self.path.clone() {
            if p.len() <= 16 {
                let m = self.signs[&p];
                let e = self.nl(&p);
                lines.push(format!("(assert {})\n", Self::atom_smt(&e, m)));
            }
        }
        lines.sort();
        lines.dedup();
        let key = lines.concat() + q;
        if let Some(r) = self.refuted.get(&key) {
            return *r;
        }
        let mut s = format!("(set-option :timeout {})\n", tmo);
        for v in 0..self.names.len() {
            s.push_str(&format!("(declare-const v{} Real)\n", v));
        }
        s.push_str(&lines.concat());
        s.push_str(&format!("(assert {})\n(check-sat-using (then simplify propagate-values solve-eqs purify-arith qfnra-nlsat))\n(exit)\n", q));
        let t = Instant::now();
        let out = run_solver("z3", &["-in", "-smt2"], &s, Duration::from_millis(tmo + 500));
        self.stats.solver_queries += 1;
        self.stats.solver_ms += t.elapsed().as_millis() as u64;
        let r = out.is_some_and(|o| o.lines().next().unwrap_or("").trim() == "unsat");
        self.refuted.insert(key, r);
        r
    }
    /// p = product of known factors (with multiplicity) times a rest
    pub fn split_factors(&self, p: &Poly) -> Split {
        if self.factors.is_empty() || p.as_const().is_some() {
            return Rc::new((vec![], p.clone()));
        }
        {
            let mut s = self.splits.borrow_mut();
            if s.cur.is_none() {
                let i = s.sets.iter().position(|x| x.0 == self.factors);
                s.cur = Some(i.unwrap_or_else(|| {
                    s.sets.push((self.factors.clone(), AHashMap::new()));
                    s.sets.len() - 1
                }));
            }
            if let Some(x) = s.sets[s.cur.unwrap()].1.get(p) {
                return x.clone();
            }
        }
        let mut rest = p.clone();
        let mut out = vec![];
        for f in &self.factors {
            let mut n = 0;
            while rest.degree() >= f.degree() {
                match rest.div_exact(f) {
                    Some(q) => {
                        rest = q;
                        n += 1
                    }
                    None => break,
                }
            }
            if n > 0 {
                out.push((f.clone(), n));
            }
        }
        let (c, k) = rest.canon();
        if let Some(r) = c.sqrt_exact() {
            if r.as_const().is_none() {
                out.push((r.canon().0, 2));
                rest = Poly::constant(k);
            }
        }
        let r = Rc::new((out, rest));
        let mut s = self.splits.borrow_mut();
        let i = s.cur.unwrap();
        let m = &mut s.sets[i].1;
        if m.len() > 60000 {
            m.clear();
        }
        m.insert(p.clone(), r.clone());
        drop(s);
        r
    }
    /// known sign of a product of factors
    fn mask_split(&self, sp: &(Vec<(Poly, u32)>, Poly)) -> u8 {
        let mut m = self.mask_plain(&sp.1);
        for (f, n) in &sp.0 {
            let fm = self.mask_plain(f);
            let fm = if n % 2 == 0 { (fm & ZERO) | if fm & (NEG | POS) != 0 { POS } else { 0 } } else { fm };
            m = mul_mask(m, fm);
        }
        m
    }
    /// Decide whether sign(p) is in `want`, forking if undetermined.
    pub fn decide(&mut self, p: &Poly, want: u8) -> bool {
        if let Some(c) = p.as_const() {
            let s = if c < 0 { NEG } else if c == 0 { ZERO } else { POS };
            return want & s != 0;
        }
        let (c, f) = p.canon();
        let want = if f < 0 { flip_mask(want) } else { want };
        let cur = self.signs.get(&c).copied().unwrap_or(7);
        let yes = cur & want;
        let no = cur & !want;
        if no == 0 {
            return true;
        }
        if yes == 0 {
            return false;
        }
        if !self.factors.is_empty() {
            let sp = self.split_factors(&c);
            if !sp.0.is_empty() {
                let m = self.mask_split(&sp);
                if m & !want == 0 {
                    return true;
                }
                if m & want == 0 {
                    return false;
                }
                let mut want = want;
                for (f, n) in &sp.0 {
                    if self.decide_plain(f, ZERO) {
                        return want & ZERO != 0;
                    }
                    if n % 2 == 1 && want != ZERO && want != (NEG | POS) && !self.decide_plain(f, POS) {
                        want = flip_mask(want);
                    }
                }
                let r = if sp.1.as_const().is_some() { self.mask_plain(&sp.1) & want != 0 } else { self.decide_plain(&sp.1, want) };
                let m = self.mask_split(&sp);
                self.lemma(&c, m);
                return r;
            }
        }
        self.fork_sign(c, yes, no)
    }
    fn decide_plain(&mut self, p: &Poly, want: u8) -> bool {
        let (c, f) = p.canon();
        let want = if f < 0 { flip_mask(want) } else { want };
        let cur = self.signs.get(&c).copied().unwrap_or(7);
        let yes = cur & want;
        let no = cur & !want;
        if no == 0 {
            return true;
        }
        if yes == 0 {
            return false;
        }
        self.fork_sign(c, yes, no)
    }
    fn fork_sign(&mut self, c: Poly, yes: u8, no: u8) -> bool {
        let taken = self.fork(Some(&c), &[yes, no]);
        let m = if taken == 0 { yes } else { no };
        self.signs.insert(c.clone(), m);
        self.path.push((c, m));
        taken == 0
    }
    /// Choose among options (sign masks of p when given, otherwise plain alternatives).
    fn fork(&mut self, p: Option<&Poly>, opts: &[u8]) -> usize {
        if self.pos < self.trace.len() {
            let d = self.trace[self.pos].clone();
            // the newest decision of a backtracked prefix has not been asserted yet
            if self.pos + 1 == self.trace.len() && d.pushed && self.levels.len() == self.pushed_below(self.pos) + 1 {
                self.flush_lemmas();
                self.push_level(p, opts[d.chosen as usize]);
            }
            self.pos += 1;
            return d.chosen as usize;
        }
        if Instant::now() > self.deadline {
            std::panic::panic_any(Budget);
        }
        if self.trace.len() > self.max_forks {
            std::panic::panic_any(Budget);
        }
        let mut feas: Vec<u8> = vec![];
        for (i, &o) in opts.iter().enumerate() {
            let ok = match p {
                Some(p) => {
                    // last candidate must be feasible if none other was (path itself is feasible as far as known)
                    if i + 1 == opts.len() && feas.is_empty() { true } else { self.feasible(p, o) }
                }
                None => true,
            };
            if ok {
                feas.push(i as u8)
            }
        }
        let chosen = feas[0];
        let rest: Vec<u8> = feas[1..].to_vec();
        let pushed = !rest.is_empty();
        if pushed {
            self.stats.forks += 1;
            self.flush_lemmas();
            self.push_level(p, opts[chosen as usize]);
        }
        self.trace.push(Dec { chosen, rest, pushed });
        self.pos += 1;
        chosen as usize
    }
    fn pushed_below(&self, i: usize) -> usize {
        self.trace[..i].iter().filter(|d| d.pushed).count()
    }
    fn push_level(&mut self, p: Option<&Poly>, mask: u8) {
        self.z3.send("(push)");
        self.levels.push(Level::default());
        if let Some(p) = p {
            let e = self.lin(p);
            self.z3.send(&format!("(assert {})", Self::atom_smt(&e, mask)));
        }
    }
    /// Nondeterministic choice among n alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let opts: Vec<u8> = vec![7; n];
        let r = self.fork(None, &opts);
        self.choices.push(r);
        r
    }
    /// Choice that is internal (not an input of the contract).
    pub fn choose_internal(&mut self, n: usize) -> usize {
        let opts: Vec<u8> = vec![7; n];
        self.fork(None, &opts)
    }
    pub fn fresh(&mut self, name: &str) -> Poly {
        let v = self.names.len();
        assert!(v < 250, "too many symbolic variables");
        self.names.push(name.to_string());
        Poly::var(v as u8)
    }
    pub fn assume(&mut self, f: &F) {
        match f {
            F::True => {}
            F::Atom(p, dens, m) if dens.is_empty() => {
                if let Some(c) = p.as_const() {
                    let s = if c < 0 { NEG } else if c == 0 { ZERO } else { POS };
                    if m & s == 0 {
                        std::panic::panic_any(Infeasible);
                    }
                    return;
                }
                let (c, k) = p.canon();
                let m = if k < 0 { flip_mask(*m) } else { *m };
                let cur = self.signs.get(&c).copied().unwrap_or(7);
                if cur & m == 0 {
                    std::panic::panic_any(Infeasible);
                }
                self.signs.insert(c.clone(), cur & m);
                self.lemmas.push((c.clone(), cur & m));
                self.path.push((c, cur & m));
            }
            F::And(v) => {
                for x in v {
                    self.assume(x)
                }
            }
            F::False => std::panic::panic_any(Infeasible),
            F::Not(b) => {
                if let F::Or(v) = &**b {
                    for x in v {
                        self.assume(&F::Not(Box::new(x.clone())))
                    }
                } else if let F::Atom(p, d, m) = &**b {
                    self.assume(&F::Atom(p.clone(), d.clone(), 7 & !m))
                } else if let F::Not(x) = &**b {
                    self.assume(x)
                } else {
                    self.extra.push(f.clone())
                }
            }
            _ => self.extra.push(f.clone()),
        }
    }
    /// p = 0 follows from the path
    pub fn derive_zero(&mut self, p: &Poly) {
        if p.as_const().is_some() {
            return;
        }
        let (c, _) = p.canon();
        let cur = self.signs.get(&c).copied().unwrap_or(7);
        if cur == ZERO {
            return;
        }
        if cur & ZERO == 0 {
            std::panic::panic_any(Infeasible);
        }
        self.signs.insert(c.clone(), ZERO);
        self.lemmas.push((c.clone(), ZERO));
        self.path.push((c, ZERO));
    }
    pub fn ensure(&mut self, label: &str, f: F) {
        self.obligations.push((label.to_string(), f));
    }
    /// a step of the argument: proved from what is known so far, then used
    pub fn step(&mut self, label: &str, f: F) {
        match self.prove(&f, true) {
            Ok(b) => {
                self.stats.obligations += 1;
                *self.stats.by_backend.entry(b).or_insert(0) += 1;
                self.assume(&f)
            }
            Err(_) => self.ensure(label, f),
        }
    }
    pub fn mark(&mut self, label: &str) {
        *self.stats.reached.entry(label.to_string()).or_insert(0) += 1;
    }

    // ---- formula encoding
    fn enc(&mut self, f: &F, nl: bool) -> String {
        match f {
            F::True => "true".into(),
            F::False => "false".into(),
            F::Not(b) => format!("(not {})", self.enc(b, nl)),
            F::And(v) => {
                let mut s = String::from("(and true");
                for x in v {
                    s.push(' ');
                    s.push_str(&self.enc(x, nl))
                }
                s + ")"
            }
            F::Or(v) => {
                let mut s = String::from("(or false");
                for x in v {
                    s.push(' ');
                    s.push_str(&self.enc(x, nl))
                }
                s + ")"
            }
            F::Atom(p, dens, mask) => {
                let e = if nl { self.nl(p) } else { self.lin(p) };
                if dens.is_empty() {
                    return Self::atom_smt(&e, *mask);
                }
                // dens are known non-zero; sign of product = parity of negatives
                let mut neg = String::from("false");
                for d in dens.iter() {
                    let (c, k) = d.canon();
                    let cur = self.signs.get(&c).copied().unwrap_or(7);
                    let cur = if k < 0 { flip_mask(cur) } else { cur };
                    if cur & NEG == 0 {
                        continue;
                    }
                    let de = if nl { self.nl(d) } else { self.lin(d) };
                    neg = format!("(xor {} (< {} 0.0))", neg, de);
                }
                if neg == "false" {
                    return Self::atom_smt(&e, *mask);
                }
                format!(
                    "(ite {} {} {})",
                    neg,
                    Self::atom_smt(&e, flip_mask(*mask)),
                    Self::atom_smt(&e, *mask)
                )
            }
        }
    }
    fn nl(&mut self, p: &Poly) -> String {
        if p.is_zero() {
            return "0.0".into();
        }
        let mut s = String::from("(+");
        for (m, c) in p.0.iter() {
            s.push_str(" (* ");
            s.push_str(&rat_smt(c));
            for &v in m.iter() {
                s.push_str(&format!(" v{}", v));
            }
            s.push(')');
        }
        s.push_str(" 0.0)");
        s
    }
    fn polys_of(f: &F, out: &mut Vec<Poly>) {
        match f {
            F::Atom(p, d, _) => {
                out.push(p.clone());
                out.extend(d.iter().cloned());
            }
            F::And(v) | F::Or(v) => v.iter().for_each(|x| Self::polys_of(x, out)),
            F::Not(b) => Self::polys_of(b, out),
            _ => {}
        }
    }

    /// Try to prove `f` from the current path. Ok(backend) or Err(model option, proven_sat)
    pub fn prove(&mut self, f: &F, deep: bool) -> Result<String, (Option<Vec<Rational>>, bool)> {
        if let F::True = f {
            return Ok("syntactic".into());
        }
        // trivial evaluation by known signs
        if self.eval3(f) == Some(true) {
            return Ok("sign-propagation".into());
        }
        // stage 1: linear arithmetic over monomials
        let extra: Vec<F> = self.extra.clone();
        let goal = self.enc(f, false);
        let exs: Vec<String> = extra.iter().map(|x| self.enc(x, false)).collect();
        self.flush_lemmas();
        self.z3.send("(push)");
        self.levels.push(Level::default());
        for e in &exs {
            self.z3.send(&format!("(assert {})", e));
        }
        self.z3.send(&format!("(assert (not {}))", goal));
        let r = self.z3.check();
        if r == "unsat" {
            self.pop_level();
            return Ok("z3-lra".into());
        }
        if !deep {
            self.pop_level();
            return Err((None, false));
        }
        // stage 2: products of atoms as additional linear facts
        let mut gp = vec![];
        Self::polys_of(f, &mut gp);
        for x in &extra {
            Self::polys_of(x, &mut gp);
        }
        let mut facts: Vec<(Poly, u8)> = vec![];
        {
            let mut seen = AHashSet::new();
            for (p, _) in self.path.iter() {
                if seen.insert(p.clone()) {
                    let m = self.signs[p];
                    facts.push((p.clone(), m));
                }
            }
        }
        let mut gseen = AHashSet::new();
        let mut goals = vec![];
        for g in gp {
            let (c, _) = g.canon();
            if c.as_const().is_none() && gseen.insert(c.clone()) {
                goals.push(c)
            }
        }
        // small polynomials first
        for cap in [16usize, 300] {
            if cap > 16 && facts.iter().all(|x| x.0.len() <= 16) && goals.iter().all(|x| x.len() <= 16) {
                continue;
            }
        // stage 1b: consequences of the equations on the path (times hints, variables, goal polynomials)
        let zeros: Vec<Poly> = facts.iter().filter(|x| x.1 == ZERO && x.0.len() <= cap).map(|x| x.0.clone()).collect();
        if !zeros.is_empty() {
            let mut mult: Vec<Poly> = self.hints.clone();
            mult.extend(goals.iter().cloned());
            for v in 0..self.names.len() {
                mult.push(Poly::var(v as u8));
            }
            let mut n = 0;
            for z in &zeros {
                for h in &mult {
                    if n < 1500 && z.len() * h.len() <= cap * 20 {
                        let e = self.lin(&z.mul(h));
                        self.z3.send(&format!("(assert (= {} 0.0))", e));
                        n += 1;
                    }
                }
            }
            if self.z3.check() == "unsat" {
                self.pop_level();
                return Ok("z3-lra-products".into());
            }
        }
        let lim = 600usize;
        let mut sent = 0;
        let small = |p: &Poly, q: &Poly| p.len() <= cap && q.len() <= cap && p.len() * q.len() <= 4000;
        for i in 0..facts.len() {
            for j in i..facts.len() {
                if sent > lim {
                    break;
                }
                let (p, a) = facts[i].clone();
                let (q, b) = facts[j].clone();
                if !small(&p, &q) {
                    continue;
                }
                let m = mul_mask(a, b);
                let m = if i == j { (m & POS) | (a & ZERO) | if a & (NEG | POS) != 0 { POS } else { 0 } } else { m };
                if m == 7 {
                    continue;
                }
                let pr = p.mul(&q);
                let e = self.lin(&pr);
                self.z3.send(&format!("(assert {})", Self::atom_smt(&e, m)));
                sent += 1;
            }
        }
        for g in &goals {
            for (q, b) in facts.clone() {
                if sent > 2 * lim || !small(g, &q) {
                    continue;
                }
                if b == ZERO {
                    let e = self.lin(&g.mul(&q));
                    self.z3.send(&format!("(assert (= {} 0.0))", e));
                    sent += 1;
                    continue;
                }
                let pr = g.mul(&q);
                let ge = self.lin(g);
                let e = self.lin(&pr);
                for s in [NEG, ZERO, POS] {
                    let m = mul_mask(s, b);
                    if m != 7 {
                        self.z3.send(&format!(
                            "(assert (=> {} {}))",
                            Self::atom_smt(&ge, s),
                            Self::atom_smt(&e, m)
                        ));
                    }
                }
                sent += 1;
            }
        }
        for (i, g) in goals.iter().enumerate() {
            for h in goals[i..].iter() {
                if !small(g, h) || sent > 3 * lim {
                    continue;
                }
                let e = self.lin(&g.mul(h));
                let ge = self.lin(g);
                let he = self.lin(h);
                for s in [NEG, ZERO, POS] {
                    for t in [NEG, ZERO, POS] {
                        let m = mul_mask(s, t);
                        self.z3.send(&format!(
                            "(assert (=> (and {} {}) {}))",
                            Self::atom_smt(&ge, s),
                            Self::atom_smt(&he, t),
                            Self::atom_smt(&e, m)
                        ));
                    }
                }
                sent += 1;
            }
        }
            if cap == 16 {
                self.flush_lemmas();
                if self.z3.check() == "unsat" {
                    self.pop_level();
                    return Ok("z3-lra-products".into());
                }
                if !self.factors.is_empty() {
                    let g = self.enc(f, true);
                    if self.refute_small(&format!("(not {})", g), 3000) {
                        self.pop_level();
                        return Ok("z3-nra".into());
                    }
                }
            }
        }
        self.flush_lemmas();
        let r = self.z3.check();
        self.pop_level();
        if r == "unsat" {
            return Ok("z3-lra-products".into());
        }
        // stage 3: nonlinear
        for (prog, args, tmo, tactic, model) in [
            ("z3", vec!["-in", "-smt2"], 4000u64, "(check-sat-using (then simplify propagate-values solve-eqs purify-arith qfnra-nlsat))", true),
            ("z3-new", vec!["-in", "-smt2"], 6000, "(check-sat)", true),
            ("cvc5", vec!["--lang=smt2", "--nl-cov"], 8000, "(check-sat)", false),
        ] {
            match self.nonlinear(f, prog, &args, tmo, tactic, model) {
                Some(Ok(())) => return Ok(format!("{}-nra", prog)),
                Some(Err(m)) => return Err((m, true)),
                None => {}
            }
        }
        Err((None, false))
    }
    fn nonlinear(
        &mut self,
        f: &F,
        prog: &str,
        args: &[&str],
        tmo: u64,
        tactic: &str,
        model: bool,
    ) -> Option<Result<(), Option<Vec<Rational>>>> {
        let mut s = String::new();
        if prog == "cvc5" {
            s.push_str("(set-logic QF_NRA)\n");
        } else {
            s.push_str(&format!("(set-option :timeout {})\n", tmo));
        }
        for v in 0..self.names.len() {
            s.push_str(&format!("(declare-const v{} Real)\n", v));
        }
        for (p, _) in self.path.clone() {
            let m = self.signs[&p];
            let e = self.nl(&p);
            s.push_str(&format!("(assert {})\n", Self::atom_smt(&e, m)));
        }
        for x in self.extra.clone() {
            let e = self.enc(&x, true);
            s.push_str(&format!("(assert {})\n", e));
        }
        let g = self.enc(f, true);
        s.push_str(&format!("(assert (not {}))\n", g));
        s.push_str(tactic);
        s.push('\n');
        if model {
            for v in 0..self.names.len() {
                s.push_str(&format!("(eval v{})\n", v));
            }
        }
        s.push_str("(exit)\n");
        let t = Instant::now();
        let out = run_solver(prog, args, &s, Duration::from_millis(tmo + 1500));
        self.stats.solver_queries += 1;
        self.stats.solver_ms += t.elapsed().as_millis() as u64;
        let out = out?;
        let first = out.lines().next().unwrap_or("").trim().to_string();
        if first == "unsat" {
            return Some(Ok(()));
        }
        if first == "sat" {
            if !model {
                return Some(Err(None));
            }
            let mut vals = vec![];
            let rest: Vec<&str> = out.lines().skip(1).collect();
            for l in rest {
                match parse_rat(l.trim()) {
                    Some(r) => vals.push(r),
                    None => return Some(Err(None)),
                }
            }
            if vals.len() == self.names.len() {
                return Some(Err(Some(vals)));
            }
            return Some(Err(None));
        }
        None
    }
    fn eval3(&self, f: &F) -> Option<bool> {
        match f {
            F::True => Some(true),
            F::False => Some(false),
            F::Not(b) => self.eval3(b).map(|x| !x),
            F::And(v) => {
                let mut all = true;
                for x in v {
                    match self.eval3(x) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all { Some(true) } else { None }
            }
            F::Or(v) => {
                let mut all = true;
                for x in v {
                    match self.eval3(x) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => all = false,
                    }
                }
                if all { Some(false) } else { None }
            }
            F::Atom(p, dens, mask) => {
                let mut m = self.mask_of(p);
                for d in dens.iter() {
                    m = mul_mask(m, self.mask_of(d) & !ZERO)
                }
                if m & !mask == 0 {
                    Some(true)
                } else if m & mask == 0 {
                    Some(false)
                } else {
                    None
                }
            }
        }
    }
    pub fn mask_of(&self, p: &Poly) -> u8 {
        let m = self.mask_plain(p);
        if m == 7 && !self.factors.is_empty() {
            let sp = self.split_factors(p);
            if !sp.0.is_empty() {
                return self.mask_split(&sp);
            }
        }
        m
    }
    /// register a polynomial to be factored out of every value
    pub fn factor(&mut self, p: &Poly) {
        if p.as_const().is_some() {
            return;
        }
        let (c, _) = p.canon();
        if !self.factors.contains(&c) {
            self.factors.push(c);
            self.factors.sort_by_key(|x| std::cmp::Reverse(x.degree()));
            self.splits.borrow_mut().cur = None;
        }
    }
    fn mask_plain(&self, p: &Poly) -> u8 {
        if let Some(c) = p.as_const() {
            return if c < 0 { NEG } else if c == 0 { ZERO } else { POS };
        }
        let (c, k) = p.canon();
        let m = self.signs.get(&c).copied().unwrap_or(7);
        if k < 0 { flip_mask(m) } else { m }
    }
    fn start_path(&mut self) {
        self.dbls.clear();
        self.dbl_ids.clear();
        self.rounded.clear();
        self.truncated.clear();
        self.denoms.clear();
        self.quots.clear();
        self.rats.clear();
        self.idents.clear();
        self.zero_sign.clear();
        self.modular = false;
        self.ghosts.clear();
        self.names.clear();
        self.path.clear();
        self.signs.clear();
        self.lemmas.clear();
        self.extra.clear();
        self.hints.clear();
        self.factors.clear();
        self.splits.borrow_mut().cur = None;
        self.merge_zero = false;
        self.whole_line = false;
        self.script = None;
        self.choices.clear();
        self.obligations.clear();
        self.approx.clear();
        self.intervals.clear();
        self.pos = 0;
    }
    /// Move to the next unexplored path; false when done.
    fn backtrack(&mut self) -> bool {
        loop {
            match self.trace.pop() {
                None => return false,
                Some(mut d) => {
                    if d.pushed && self.levels.len() > 1 + self.pushed_below(self.trace.len()) {
                        self.pop_level();
                    }
                    if let Some(&n) = d.rest.first() {
                        d.rest.remove(0);
                        d.chosen = n;
                        self.trace.push(d);
                        return true;
                    }
                }
            }
        }
    }
}

pub fn mul_mask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for s in [NEG, ZERO, POS] {
        for t in [NEG, ZERO, POS] {
            if a & s != 0 && b & t != 0 {
                r |= if s == ZERO || t == ZERO {
                    ZERO
                } else if s == t {
                    POS
                } else {
                    NEG
                };
            }
        }
    }
    r
}

pub fn run_solver(prog: &str, args: &[&str], input: &str, tmo: Duration) -> Option<String> {
    let mut child = Command::new("timeout")
        .arg(format!("{}", tmo.as_secs_f64()))
        .arg(prog)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    {
        let mut i = child.stdin.take().unwrap();
        let inp = input.to_string();
        let h = std::thread::spawn(move || {
            let _ = i.write_all(inp.as_bytes());
        });
        let o = child.wait_with_output().ok()?;
        let _ = h.join();
        Some(String::from_utf8_lossy(&o.stdout).to_string())
    }
}

pub fn parse_rat(s: &str) -> Option<Rational> {
    let s = s.trim();
    if let Some(x) = s.strip_prefix("(- ").and_then(|x| x.strip_suffix(')')) {
        return parse_rat(x).map(|r| -r);
    }
    if let Some(x) = s.strip_prefix("(/ ").and_then(|x| x.strip_suffix(')')) {
        // split at top level
        let mut depth = 0;
        for (i, ch) in x.char_indices() {
            match ch {
                '(' => depth += 1,
                ')' => depth -= 1,
                ' ' if depth == 0 => {
                    let a = parse_rat(&x[..i])?;
                    let b = parse_rat(&x[i + 1..])?;
                    if b == 0 {
                        return None;
                    }
                    return Some(a / b);
                }
                _ => {}
            }
        }
        return None;
    }
    let s = s.strip_suffix(".0").unwrap_or(s);
    if s.is_empty() || s.contains(|c: char| !(c.is_ascii_digit() || c == '-')) {
        return None;
    }
    s.parse::<rug::Integer>().ok().map(Rational::from)
}

pub struct Outcome {
    pub stats: Stats,
    pub failures: Vec<Failure>,
    pub undecided: Vec<Failure>,
    /// None: all paths explored; Some(reason) otherwise
    pub incomplete: Option<String>,
    pub wall: f64,
}

/// Explore all paths of `body`.
pub fn explore(body: &dyn Fn(), budget: Duration, max_fail: usize, approx_set: &[f64]) -> Outcome {
    let t0 = Instant::now();
    let ctx = Ctx::new(t0 + budget);
    CTX.with(|c| *c.borrow_mut() = Some(ctx));
    with(|c| c.approx_set = approx_set.to_vec());
    let mut failures: Vec<Failure> = vec![];
    let mut undecided: Vec<Failure> = vec![];
    let mut incomplete = None;
    loop {
        with(|c| c.start_path());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body()));
        let mut obs: Vec<(String, F)> = with(|c| std::mem::take(&mut c.obligations));
        match r {
            Ok(()) => {}
            Err(e) => {
                if e.is::<Infeasible>() {
                    with(|c| c.stats.infeasible_paths += 1);
                    obs.clear();
                    if !with(|c| c.backtrack()) {
                        break;
                    }
                    continue;
                } else if let Some(u) = e.downcast_ref::<Unsupported>() {
                    // unsupported construct: unless the path is infeasible the exploration is incomplete
                    let dead = with(|c| c.prove(&F::False, false)).is_ok();
                    if !dead {
                        incomplete = Some(format!("unsupported construct: {}", u.0));
                        break;
                    }
                    obs.clear();
                } else if e.is::<Budget>() {
                    incomplete = Some("budget exhausted".into());
                    break;
                } else if outside_panic(&*e) {
                    incomplete = Some("the code looks beyond the local patch of the contract".into());
                    break;
                } else {
                    let msg = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or("panic".into());
                    obs.clear();
                    obs.push((format!("no panic ({})", msg.chars().take(80).collect::<String>()), F::False));
                }
            }
        }
        with(|c| c.stats.paths += 1);
        for (label, f) in obs {
            with(|c| c.stats.obligations += 1);
            if Instant::now() > t0 + budget {
                incomplete = Some("budget exhausted".into());
                break;
            }
            let t1 = Instant::now();
            let proved = with(|c| c.prove(&f, true));
            if std::env::var("VC_SLOW").is_ok() && t1.elapsed().as_millis() > 300 {
                with(|c| {
                    let names = c.names.clone();
                    eprintln!("SLOW {} {:?} {:?}", label, t1.elapsed(), proved.as_ref().ok());
                    for (p, _) in c.path.iter() {
                        eprintln!("   {:03b} {}", c.signs[p], p.show(&names).chars().take(150).collect::<String>());
                    }
                    eprintln!("   goal {}", show_f(&f, &names).chars().take(300).collect::<String>());
                });
            }
            match proved {
                Ok(b) => with(|c| *c.stats.by_backend.entry(b).or_insert(0) += 1),
                Err((model, sat)) => {
                    let detail = with(|c| {
                        let names = c.names.clone();
                        let mut s = String::new();
                        for (p, _) in c.path.iter().take(40) {
                            let m = c.signs[p];
                            s.push_str(&format!("  sign in {:03b}(+0-): {}\n", m, p.show(&names)));
                        }
                        s.push_str(&format!("  goal: {}\n", show_f(&f, &names)));
                        s
                    });
                    // the inputs of the contract only
                    let model = model.map(|m: Vec<Rational>| with(|c| c.names.iter().zip(m).filter(|(n, _)| !n.starts_with('~')).map(|(_, v)| v).collect()));
                    let fl = Failure {
                        label,
                        detail,
                        model,
                        choices: with(|c| c.choices.clone()),
                    };
                    if sat {
                        failures.push(fl)
                    } else {
                        undecided.push(fl)
                    }
                    if failures.len() + undecided.len() >= max_fail {
                        incomplete = Some("stopped after failures".into());
                    }
                }
            }
            if incomplete.is_some() {
                break;
            }
        }
        if incomplete.is_some() {
            break;
        }
        if Instant::now() > t0 + budget {
            incomplete = Some("budget exhausted".into());
            break;
        }
        if !with(|c| c.backtrack()) {
            break;
        }
    }
    let mut stats = with(|c| {
        c.stats.solver_queries += c.z3.queries;
        c.stats.solver_ms += c.z3.time.as_millis() as u64;
        c.stats.clone()
    });
    CTX.with(|c| *c.borrow_mut() = None);
    if stats.paths == 0 && incomplete.is_none() {
        incomplete = Some("no feasible path".into());
    }
    stats.solver_ms = stats.solver_ms.max(0);
    Outcome { stats, failures, undecided, incomplete, wall: t0.elapsed().as_secs_f64() }
}

pub fn show_f(f: &F, names: &[String]) -> String {
    match f {
        F::True => "true".into(),
        F::False => "false".into(),
        F::Not(b) => format!("not({})", show_f(b, names)),
        F::And(v) => format!("and[{}]", v.iter().map(|x| show_f(x, names)).collect::<Vec<_>>().join("; ")),
        F::Or(v) => format!("or[{}]", v.iter().map(|x| show_f(x, names)).collect::<Vec<_>>().join("; ")),
        F::Atom(p, d, m) => format!("sign({}{}) in {:03b}", p.show(names), if d.is_empty() { "" } else { " / .." }, m),
    }
}

/// Was an element named but not present in a local patch (numbers from 1 << 40 on) looked up?
pub fn outside_panic(e: &(dyn std::any::Any + Send)) -> bool {
    let m = e.downcast_ref::<String>().cloned().unwrap_or_default();
    m.starts_with("index out of bounds")
        && m.rsplit(' ').next().and_then(|x| x.parse::<u64>().ok()).is_some_and(|i| i >> 40 == 1)
}
