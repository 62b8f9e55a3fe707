//! Runs the contracts of one property: proof in the symbolic world, replay and search in the concrete
//! worlds, evidence file, replay files and exit code.
use crate::conc_state::{withc, Conc};
use crate::engine::{explore, Outcome};
use crate::json::J;
use crate::obj;
use rug::Rational;
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Report lines go to the file named by VC_REPORT when set (the code under test prints to stdout).
pub fn say(line: String) {
    use std::io::Write;
    match std::env::var("VC_REPORT") {
        Ok(f) => {
            if let Ok(mut h) = std::fs::OpenOptions::new().create(true).append(true).open(f) {
                let _ = writeln!(h, "{}", line);
            }
        }
        Err(_) => println!("{}", line),
    }
}
macro_rules! say { ($($a:tt)*) => { say(format!($($a)*)) } }

/// One contract as written in a contract file (per world).
#[derive(Clone, Copy)]
pub struct Decl {
    pub name: &'static str,
    /// functions of the repository whose bodies are executed under this contract
    pub fns: &'static [&'static str],
    pub f: fn(),
    /// double approximations a symbolic value may report (abstraction of `as_f64_fast` and friends)
    pub approx: &'static [f64],
    /// concrete only: a bounded stand-in, never counted as proved
    pub bounded: bool,
    /// executed symbolically, but only within this bound (sizes, shapes): never counted as proved
    pub bound: Option<&'static str>,
    /// run concretely on the lazy number type too
    pub lazy: bool,
}
pub const fn proof(name: &'static str, fns: &'static [&'static str], f: fn()) -> Decl {
    Decl { name, fns, f, approx: &[], bounded: false, bound: None, lazy: true }
}
pub const fn bounded(name: &'static str, fns: &'static [&'static str], f: fn()) -> Decl {
    Decl { name, fns, f, approx: &[], bounded: true, bound: None, lazy: true }
}
impl Decl {
    pub const fn within(mut self, b: &'static str) -> Decl {
        self.bound = Some(b);
        self
    }
    pub const fn approx(mut self, a: &'static [f64]) -> Decl {
        self.approx = a;
        self
    }
    pub const fn no_lazy(mut self) -> Decl {
        self.lazy = false;
        self
    }
}

#[derive(Clone)]
pub struct Contract {
    pub d: Decl,
    pub conc: fn(),
    pub lazy: Option<fn()>,
}
pub struct Property {
    pub id: &'static str,
    pub contracts: Vec<Contract>,
    pub trusted: Vec<&'static str>,
    pub assumptions: Vec<&'static str>,
    /// extra obligations decided elsewhere (already run), e.g. by another verifier
    pub external: Vec<External>,
}
pub struct External {
    pub name: String,
    pub fns: Vec<String>,
    pub obligations: u64,
    pub discharged: u64,
    pub backend: String,
    pub solver_ms: u64,
    /// failing obligations: label, detail, concrete input
    pub failures: Vec<(String, String, Option<String>)>,
    pub incomplete: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub world: &'static str,
    pub label: String,
    pub vals: Vec<(String, Rational)>,
    pub choices: Vec<usize>,
}

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or("panic".into())
}
/// Run a concrete contract once with the current CONC state.
fn run_conc(f: fn(), world: &'static str) -> (Option<Found>, bool) {
    withc(|x| {
        x.vals.clear();
        x.choices.clear();
        x.failures.clear();
    });
    let before = withc(|x| x.checked);
    slot_set(Some(Running { since: Instant::now(), limit: Duration::from_secs(30), run: Some((f, world, withc(|x| x.seed_state()))) }));
    let r = std::panic::catch_unwind(|| f());
    slot_set(None);
    let (mut fails, vals, choices, after) =
        withc(|x| (x.failures.clone(), x.vals.clone(), x.choices.clone(), x.checked));
    if r.as_ref().is_err_and(|e| e.downcast_ref::<crate::conc_state::Skip>().is_some()) {
    } else if r.as_ref().is_err_and(|e| crate::engine::outside_panic(&**e)) {
        fails.clear();
    } else if let Err(e) = r {
        fails.push(format!("no panic ({})", panic_msg(e)));
    }
    let evaluated = after > before || !fails.is_empty();
    (fails.first().map(|l| Found { world, label: l.clone(), vals, choices }), evaluated)
}
impl Contract {
    fn worlds(&self) -> Vec<(&'static str, fn())> {
        let mut v: Vec<(&'static str, fn())> = vec![("rational", self.conc)];
        if let (Some(l), true) = (self.lazy, self.d.lazy) {
            v.push(("lazy", l));
        }
        v
    }
}
pub fn replay(c: &Contract, vals: &[Rational], choices: &[usize], only: Option<&str>) -> Option<Found> {
    for (w, f) in c.worlds() {
        if only.is_some_and(|o| o != w) {
            continue;
        }
        withc(|x| *x = Conc::new(1));
        withc(|x| x.replay = Some((vals.to_vec(), choices.to_vec())));
        let r = run_conc(f, w).0;
        withc(|x| x.replay = None);
        if r.is_some() {
            return r;
        }
    }
    None
}
pub fn search(c: &Contract, seed: u64, budget: Duration, max: u64) -> (Option<Found>, u64, u64, Option<String>) {
    let t = Instant::now();
    withc(|x| *x = Conc::new(seed.wrapping_mul(7919) ^ 0xABCDEF));
    let (mut runs, mut eff) = (0, 0);
    let ws = c.worlds();
    let mut sample = None;
    while runs < max && t.elapsed() < budget {
        withc(|x| x.mode = (runs % 8) as u8);
        let (w, f) = if runs % 5 == 4 { ws[ws.len() - 1] } else { ws[0] };
        let (found, ev) = run_conc(f, w);
        runs += 1;
        if ev {
            eff += 1;
            if sample.is_none() && runs > 6 {
                sample = Some(withc(|x| {
                    format!(
                        "{}: {} choices {:?}",
                        c.d.name,
                        x.vals.iter().take(24).map(|(n, v)| format!("{}={}", n, v)).collect::<Vec<_>>().join(" "),
                        x.choices.iter().take(24).collect::<Vec<_>>()
                    )
                }));
            }
        }
        if found.is_some() {
            return (found, runs, eff, sample);
        }
    }
    (None, runs, eff, sample)
}

pub struct Report {
    pub c: Contract,
    pub out: Option<Outcome>,
    pub found: Option<Found>,
    pub runs: u64,
    pub eff: u64,
    pub sample: Option<String>,
}

/// set once a failing input is known: the remaining proofs get a short budget
static FOUND: AtomicBool = AtomicBool::new(false);

pub fn run_contract(c: Contract, seed: u64, budget: Duration, sbudget: Duration, max: u64) -> Report {
    let (mut found, mut runs, mut eff, sample) = search(&c, seed, sbudget, max);
    let mut bad = c.d.bounded;
    FOUND.fetch_or(found.is_some(), Relaxed);
    let out = if c.d.bounded {
        None
    } else {
        let budget = if FOUND.load(Relaxed) { budget.min(Duration::from_secs(20)) } else { budget };
        slot_set(Some(Running { since: Instant::now(), limit: budget + Duration::from_secs(60), run: None }));
        let out = explore(&c.d.f, budget, 4, c.d.approx);
        slot_set(None);
        for f in out.failures.iter() {
            if found.is_some() {
                break;
            }
            if let Some(m) = &f.model {
                found = replay(&c, m, &f.choices, None);
            }
        }
        bad |= !out.failures.is_empty() || !out.undecided.is_empty() || out.incomplete.is_some();
        Some(out)
    };
    if found.is_none() && bad && !FOUND.load(Relaxed) {
        let (f, r, e, _) = search(&c, seed.wrapping_add(1000), sbudget * 9, max.saturating_mul(9));
        found = f;
        runs += r;
        eff += e;
    }
    FOUND.fetch_or(found.is_some(), Relaxed);
    Report { c, out, found, runs, eff, sample }
}

/// What a worker is doing, for the watchdog.
#[derive(Clone)]
struct Running {
    since: Instant,
    limit: Duration,
    /// a concrete run: world, random state, mode, replayed input
    run: Option<(fn(), &'static str, Conc)>,
}
thread_local! { static SLOT: RefCell<Option<Arc<Mutex<Option<Running>>>>> = const { RefCell::new(None) }; }
fn slot_set(r: Option<Running>) {
    SLOT.with(|s| {
        if let Some(m) = &*s.borrow() {
            *m.lock().unwrap() = r;
        }
    })
}
/// repeat a run that does not return, recording the values it draws
fn trace_run(f: fn(), state: Conc) -> (Vec<(String, Rational)>, Vec<usize>) {
    let t: Arc<Mutex<(Vec<(String, Rational)>, Vec<usize>)>> = Default::default();
    let t2 = t.clone();
    let _ = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        withc(|x| *x = Conc { trace: Some(t2), ..state });
        let _ = std::panic::catch_unwind(|| f());
    });
    std::thread::sleep(Duration::from_secs(5));
    let r = t.lock().unwrap().clone();
    r
}

fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else { format!("{}...", s.chars().take(n).collect::<String>()) }
}

pub fn main(p: Property) {
    if std::env::var("VC_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        std::process::exit(replay_file(&p, &args[2]));
    }
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let outdir = std::env::var("VC_OUT").unwrap_or("/verif/evidence".into());
    let thorough = tier == "thorough";
    let t0 = Instant::now();
    let (budget, sbudget, total, max) = if thorough {
        (Duration::from_secs(450), Duration::from_secs(20), Duration::from_secs(600), 2_000_000u64)
    } else {
        (Duration::from_secs(std::env::var("VC_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(240)), Duration::from_secs(3), Duration::from_secs(400), 60_000u64)
    };
    let only = args.get(1).cloned();
    let todo: Vec<(usize, Contract)> = p
        .contracts
        .iter()
        .cloned()
        .enumerate()
        .filter(|(_, c)| only.as_ref().is_none_or(|o| c.d.name.contains(o.as_str())))
        .collect();
    let queue = Arc::new(Mutex::new(todo.into_iter().rev().collect::<Vec<_>>()));
    let results: Arc<Mutex<Vec<(usize, Report)>>> = Arc::new(Mutex::new(vec![]));
    let nthreads = std::env::var("VC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let ids: Vec<(usize, Contract)> = queue.lock().unwrap().clone();
    struct Worker {
        h: std::thread::JoinHandle<()>,
        slot: Arc<Mutex<Option<Running>>>,
        at: Arc<Mutex<Option<usize>>>,
    }
    let mut hs: Vec<Worker> = (0..nthreads)
        .map(|_| {
            let (q, r) = (queue.clone(), results.clone());
            let (slot, at): (Arc<Mutex<Option<Running>>>, Arc<Mutex<Option<usize>>>) = Default::default();
            let (slot2, at2) = (slot.clone(), at.clone());
            let h =
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || loop {
                    SLOT.with(|s| *s.borrow_mut() = Some(slot2.clone()));
                    let Some((i, c)) = q.lock().unwrap().pop() else { return };
                    *at2.lock().unwrap() = Some(i);
                    let left = total.saturating_sub(t0.elapsed());
                    let b = budget.min(left).max(Duration::from_secs(5));
                    let rep = run_contract(c, seed, b, sbudget, max);
                    if std::env::var("VC_VERBOSE").is_ok() {
                        eprintln!(
                            "{:44} {} conc {}/{} found {}",
                            rep.c.d.name,
                            rep.out.as_ref().map(|o| format!("{:.1}s (solver {:.1}s) paths {} obl {} {:?} fail {} undec {} inc {:?}", o.wall, o.stats.solver_ms as f64 / 1000.0, o.stats.paths, o.stats.obligations, o.stats.by_backend, o.failures.len(), o.undecided.len(), o.incomplete)).unwrap_or("bounded".into()),
                            rep.eff,
                            rep.runs,
                            rep.found.as_ref().map(|f| format!("{} [{}] {:?} {:?}", f.label, f.world, f.vals.iter().map(|(n, v)| format!("{}={}", n, v)).collect::<Vec<_>>(), f.choices)).unwrap_or("-".into())
                        );
                        if let Some(o) = &rep.out {
                            for f in o.failures.iter().chain(o.undecided.iter()).take(2) {
                                eprintln!("     {} {:?} {:?}\n{}", f.label, f.model, f.choices, trunc(&f.detail, 9000));
                            }
                        }
                    }
                    r.lock().unwrap().push((i, rep));
                })
                .unwrap();
            Worker { h, slot, at }
        })
        .collect();
    while !hs.is_empty() {
        std::thread::sleep(Duration::from_millis(100));
        let mut k = 0;
        while k < hs.len() {
            if hs[k].h.is_finished() {
                if hs.remove(k).h.join().is_err() {
                    say!("check error: worker failed");
                    std::process::exit(2);
                }
                continue;
            }
            let cur = hs[k].slot.lock().unwrap().clone();
            if let Some(x) = cur.filter(|x| x.since.elapsed() > x.limit) {
                let i = hs[k].at.lock().unwrap().unwrap();
                let c = ids.iter().find(|y| y.0 == i).unwrap().1.clone();
                let mut rep = Report { c, out: None, found: None, runs: 1, eff: 1, sample: None };
                match x.run {
                    Some((f, world, state)) => {
                        let (vals, choices) = trace_run(f, state);
                        rep.found = Some(Found { world, label: "terminates within 30 s".into(), vals, choices });
                        FOUND.store(true, Relaxed);
                    }
                    None => rep.out = Some(Outcome { stats: Default::default(), failures: vec![], undecided: vec![], incomplete: Some("exploration did not stop".into()), wall: x.since.elapsed().as_secs_f64() }),
                }
                results.lock().unwrap().push((i, rep));
                hs.remove(k);
                continue;
            }
            k += 1;
        }
    }
    for (i, c) in queue.lock().unwrap().drain(..) {
        let out = Some(Outcome { stats: Default::default(), failures: vec![], undecided: vec![], incomplete: Some("not run".into()), wall: 0.0 });
        results.lock().unwrap().push((i, Report { c, out, found: None, runs: 1, eff: 1, sample: None }));
    }
    let mut rs: Vec<(usize, Report)> = std::mem::take(&mut *results.lock().unwrap());
    rs.sort_by_key(|x| x.0);
    let rs: Vec<Report> = rs.into_iter().map(|x| x.1).collect();

    let (mut robl, mut rdis) = (0u64, 0u64);
    let (mut bobl, mut bdis) = (0u64, 0u64);
    let mut bounds = vec![];
    let (mut obl, mut dis, mut paths, mut ms, mut queries, mut runs, mut eff) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut backends: std::collections::BTreeMap<String, u64> = Default::default();
    let mut fns: std::collections::BTreeSet<String> = Default::default();
    let mut bfns: std::collections::BTreeSet<String> = Default::default();
    let mut rows = vec![];
    let mut samples = vec![];
    let mut violations: Vec<(String, bool)> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut unproved = vec![];
    let mut vacuous = vec![];
    let _ = std::fs::create_dir_all(format!("{}/replay", outdir));
    let exe = std::env::current_exe().map(|e| e.display().to_string()).unwrap_or_default();
    for r in &rs {
        runs += r.runs;
        eff += r.eff;
        if let Some(s) = &r.sample {
            if samples.len() < 12 {
                samples.push(J::s(s.clone()));
            }
        }
        let mut row = vec![
            ("contract".to_string(), J::s(r.c.d.name)),
            ("functions".to_string(), J::A(r.c.d.fns.iter().map(|x| J::s(*x)).collect())),
        ];
        if let Some(o) = &r.out {
            let d: u64 = o.stats.by_backend.values().sum();
            // a contract whose paths depend on double approximations is decided for representative doubles only
            let rep = o.stats.approx_used > 0;
            if let Some(b) = r.c.d.bound {
                bobl += o.stats.obligations;
                bdis += d;
                bounds.push(J::s(format!("{}: {}", r.c.d.name, b)));
                row.push(("bound".into(), J::s(b)));
            } else if rep {
                robl += o.stats.obligations;
                rdis += d;
                row.push(("doubles_abstracted_by_representatives".into(), J::A(r.c.d.approx.iter().map(|x| J::N(*x)).collect())));
            } else {
                obl += o.stats.obligations;
                dis += d;
                for (k, v) in &o.stats.by_backend {
                    *backends.entry(k.clone()).or_insert(0) += v;
                }
            }
            paths += o.stats.paths;
            ms += o.stats.solver_ms;
            queries += o.stats.solver_queries;
            let ok = o.failures.is_empty() && o.undecided.is_empty() && o.incomplete.is_none();
            if ok && !rep && r.c.d.bound.is_none() {
                fns.extend(r.c.d.fns.iter().map(|s| s.to_string()));
            } else {
                bfns.extend(r.c.d.fns.iter().map(|s| s.to_string()));
                if !ok && o.failures.is_empty() && o.undecided.is_empty() {
                    unproved.push(format!("{}: {}", r.c.d.name, o.incomplete.clone().unwrap_or_default()));
                }
            }
            row.push(("paths".into(), J::I(o.stats.paths as i64)));
            row.push(("obligations".into(), J::I(o.stats.obligations as i64)));
            row.push(("discharged".into(), J::I(d as i64)));
            row.push(("wall_s".into(), J::N(o.wall)));
            if let Some(i) = &o.incomplete {
                row.push(("incomplete".into(), J::s(i.clone())));
            }
            if ok && (o.stats.paths == 0 || o.stats.obligations == 0) {
                vacuous.push(r.c.d.name);
            }
        } else {
            bfns.extend(r.c.d.fns.iter().map(|s| s.to_string()));
            row.push(("bounded".into(), J::B(true)));
        }
        row.push(("concrete_runs".into(), J::I(r.eff as i64)));
        if r.found.is_none() && r.eff == 0 {
            vacuous.push(r.c.d.name);
        }
        rows.push(J::O(row));
        // violations
        let fails: Vec<_> = r.out.as_ref().map(|o| o.failures.iter().chain(o.undecided.iter()).collect::<Vec<_>>()).unwrap_or_default();
        if r.found.is_some() || !fails.is_empty() {
            let file = format!("{}/replay/{}-{}.json", outdir, p.id, r.c.d.name.replace(|c: char| !c.is_ascii_alphanumeric(), "_"));
            let mut o = vec![
                ("property".to_string(), J::s(p.id)),
                ("contract".into(), J::s(r.c.d.name)),
                ("functions".into(), J::A(r.c.d.fns.iter().map(|x| J::s(*x)).collect())),
            ];
            if let Some(f) = &r.found {
                o.push(("failed_obligation".into(), J::s(f.label.clone())));
                o.push(("world".into(), J::s(f.world)));
                o.push(("names".into(), J::A(f.vals.iter().map(|(n, _)| J::s(n.clone())).collect())));
                o.push(("values".into(), J::A(f.vals.iter().map(|(_, v)| J::s(v.to_string())).collect())));
                o.push(("choices".into(), J::A(f.choices.iter().map(|c| J::I(*c as i64)).collect())));
                o.push(("replay_cmd".into(), J::s(format!("{} replay {}", exe, file))));
            } else {
                o.push(("failed_obligation".into(), J::s(fails[0].label.clone())));
            }
            o.push((
                "verifier_output".into(),
                J::A(
                    fails
                        .iter()
                        .map(|f| J::s(format!("{}\nmodel: {:?}\nchoices: {:?}\n{}", f.label, f.model, f.choices, trunc(&f.detail, 4000))))
                        .collect(),
                ),
            ));
            let _ = std::fs::write(&file, J::O(o).show(0));
            let label = r.found.as_ref().map(|f| f.label.clone()).unwrap_or_else(|| fails[0].label.clone());
            violations.push((format!("VIOLATION property={} replay={}", p.id, file), r.found.is_some()));
            notes.push(format!("{}: failed obligation \"{}\"", r.c.d.name, trunc(&label, 200)));
        }
    }
    for e in &p.external {
        obl += e.obligations;
        dis += e.discharged;
        ms += e.solver_ms;
        *backends.entry(e.backend.clone()).or_insert(0) += e.discharged;
        if e.failures.is_empty() && e.incomplete.is_none() {
            fns.extend(e.fns.iter().cloned());
        } else {
            bfns.extend(e.fns.iter().cloned());
        }
        if let Some(i) = &e.incomplete {
            unproved.push(format!("{}: {}", e.name, i));
        }
        rows.push(obj! {"contract": J::s(e.name.clone()), "functions": J::A(e.fns.iter().map(|x| J::s(x.clone())).collect()), "obligations": J::I(e.obligations as i64), "discharged": J::I(e.discharged as i64), "backend": J::s(e.backend.clone())});
        if e.obligations == 0 && e.incomplete.is_none() {
            unproved.push(format!("{}: no obligations generated", e.name));
        }
        for (i, (label, detail, inp)) in e.failures.iter().enumerate() {
            let file = format!("{}/replay/{}-{}-{}.json", outdir, p.id, e.name.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), i);
            let mut o = vec![
                ("property".to_string(), J::s(p.id)),
                ("contract".into(), J::s(e.name.clone())),
                ("failed_obligation".into(), J::s(label.clone())),
                ("verifier_output".into(), J::s(trunc(detail, 8000))),
            ];
            if let Some(x) = inp {
                o.push(("failing_input".into(), J::s(x.clone())));
            }
            let _ = std::fs::write(&file, J::O(o).show(0));
            violations.push((format!("VIOLATION property={} replay={}", p.id, file), inp.is_some()));
            notes.push(format!("{}: failed obligation \"{}\"", e.name, trunc(label, 200)));
        }
    }
    // functions proved under one contract and unproved under another are not fully under contract
    let only_b: Vec<String> = bfns.difference(&fns).cloned().collect();
    let all_proved = obl > 0 && dis == obl && unproved.is_empty();
    let level = if all_proved { "proof" } else { "other" };
    let mut cov = vec![
        ("obligations".to_string(), J::I(obl as i64)),
        ("discharged".into(), J::I(dis as i64)),
        ("checker_cmd".into(), J::s(exe.clone())),
        ("trusted_base".into(), J::A(p.trusted.iter().map(|x| J::s(*x)).collect())),
        ("functions_under_contract".into(), J::A(fns.iter().map(|x| J::s(x.clone())).collect())),
        ("functions_bounded_only".into(), J::A(only_b.iter().map(|x| J::s(x.clone())).collect())),
        ("obligations_for_representative_doubles_only".into(), J::A(vec![J::I(robl as i64), J::I(rdis as i64)])),
        ("obligations_within_bounds_only".into(), J::A(vec![J::I(bobl as i64), J::I(bdis as i64)])),
        ("bounds".into(), J::A(bounds)),
        ("paths".into(), J::I(paths as i64)),
        ("by_backend".into(), J::O(backends.iter().map(|(k, v)| (k.clone(), J::I(*v as i64))).collect())),
        ("solver_queries".into(), J::I(queries as i64)),
        ("solver_ms".into(), J::I(ms as i64)),
        ("not_proved_this_run".into(), J::A(unproved.iter().map(|x| J::s(x.clone())).collect())),
        ("evaluations".into(), J::I(runs as i64)),
        ("distinct_nontrivial".into(), J::I(eff as i64)),
        ("rule".into(), J::s("concrete executions of the same contracts on exact numbers; non-trivial = preconditions met and at least one postcondition evaluated")),
        ("samples".into(), J::A(samples)),
        ("contracts".into(), J::A(rows)),
    ];
    if level == "other" {
        cov.push((
            "explanation".into(),
            J::s(if obl == 0 && bobl > 0 && bobl == bdis && unproved.is_empty() {
                "bounded: the contracts were executed symbolically and every obligation was discharged, but only within the sizes listed under bounds; nothing is proved beyond them".to_string()
            } else if obl == 0 {
                "bounded stand-in: the contracts were evaluated on generated concrete inputs only, nothing is proved".to_string()
            } else {
                format!("not every obligation was discharged on this run; undischarged contracts are covered by bounded concrete evaluation only: {:?}", unproved)
            }),
        ));
    }
    let ev = J::O(vec![
        ("property".to_string(), J::s(p.id)),
        ("tier".into(), J::s(tier.clone())),
        ("seed".into(), J::I(seed as i64)),
        ("level".into(), J::s(level)),
        ("coverage".into(), J::O(cov)),
        ("assumptions".into(), J::A(p.assumptions.iter().map(|x| J::s(*x)).collect())),
        ("wall_s".into(), J::N(t0.elapsed().as_secs_f64())),
        ("violations".into(), J::I(violations.len() as i64)),
    ]);
    if only.is_none() {
        let _ = std::fs::write(format!("{}/{}.json", outdir, p.id), ev.show(0) + "\n");
    }
    say!(
        "{}: {} contracts, {} obligations, {} discharged {:?}, {} concrete evaluations, {:.1}s",
        p.id,
        rs.len() + p.external.len(),
        obl,
        dis,
        backends,
        eff,
        t0.elapsed().as_secs_f64()
    );
    for u in &unproved {
        say!("  not proved on this run (bounded evaluation only): {}", u);
    }
    for n in &notes {
        say!("  {}", n);
    }
    if !violations.is_empty() {
        violations.sort_by_key(|v| !v.1);
        for (v, real) in &violations {
            say!("{}{}", v, if *real { "" } else { " no-failing-input-found" });
        }
        std::process::exit(1);
    }
    if !vacuous.is_empty() {
        say!("check error: vacuous contracts {:?}", vacuous);
        std::process::exit(2);
    }
    std::process::exit(0);
}

fn replay_file(p: &Property, file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("cannot read replay file");
    // fields are written by this program: one array element per line
    let arr = |key: &str| -> Vec<String> {
        let Some(i) = s.find(&format!("\"{}\": [", key)) else { return vec![] };
        let t = &s[i..];
        let a = t.find('[').unwrap() + 1;
        let b = t.find(']').unwrap();
        t[a..b].split(',').map(|x| x.trim().trim_matches('"').to_string()).filter(|x| !x.is_empty()).collect()
    };
    let str_ = |key: &str| -> String {
        let k = format!("\"{}\": \"", key);
        let Some(i) = s.find(&k) else { return String::new() };
        let t = &s[i + k.len()..];
        t[..t.find('"').unwrap()].to_string()
    };
    let name = str_("contract");
    let world = str_("world");
    if world.is_empty() {
        say!("no concrete input in {}", file);
        return 2;
    }
    let vals: Vec<Rational> = arr("values").iter().map(|x| x.parse().unwrap()).collect();
    let ch: Vec<usize> = arr("choices").iter().map(|x| x.parse().unwrap()).collect();
    let c = p.contracts.iter().find(|c| c.d.name == name).expect("no such contract");
    match replay(c, &vals, &ch, Some(&world)) {
        Some(f) => {
            say!("replayed: {} fails \"{}\"", name, f.label);
            1
        }
        None => {
            say!("replayed: {} holds on this input", name);
            0
        }
    }
}
