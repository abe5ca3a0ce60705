//! Symbolic exploration of the harnesses.
//!
//! usage: harness_sym explore PROP OUT.json REPLAYER REPLAY_DIR SECONDS THREADS TIER [HARNESS]
//!        harness_sym list
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use sym::ctx::{Config, Counterexample, Ctx, Fork, Model, Stats, NEG, POS, ZER};
use sym::solver::{Answer, Solver};
use sym::{with, Rat, Stop};

pub type F = sym::F;
pub type B = sym::B;
pub fn num(x: f64) -> F { sym::lit(x as f32) }
/// n / d exactly.
pub fn frac(n: i64, d: i64) -> F { if d == 1 { num(n as f64) } else { with(|c| { let v = sym::ctx::Val::cst(Rat::int(n as i128).div(Rat::int(d as i128)).ok().unwrap()); F::N(c.intern(v)) }) } }
pub fn f64_of(x: F) -> f64 { match x { F::C(c) => c as f64, F::N(i) => with(|c| { let v = c.vals[i as usize].clone(); c.eval_val(&v) }) } }
pub fn boolean(b: bool) -> B { B::Cst(b) }
pub fn lt(a: F, b: F) -> B { a.formula(b, NEG) }
pub fn le(a: F, b: F) -> B { a.formula(b, NEG | ZER) }
pub fn gt(a: F, b: F) -> B { a.formula(b, POS) }
pub fn ge(a: F, b: F) -> B { a.formula(b, POS | ZER) }
pub fn eq(a: F, b: F) -> B { a.formula(b, ZER) }
pub fn close(a: F, b: F, tol: f64) -> B {
    if !a.is_finite() || !b.is_finite() { return B::Cst(false); }
    let d = a - b;
    if let F::C(x) = d { return B::Cst((x.abs() as f64) <= tol); }
    d.formula(num(tol), NEG | ZER).and(d.formula(num(-tol), POS | ZER))
}
pub fn le_tol(a: F, b: F, tol: f64) -> B { a.formula(b + num(tol), NEG | ZER) }

pub struct Cx;
impl Cx {
    pub fn real(&mut self, name: &str, lo: f64, hi: f64) -> F {
        let (l, h) = (Rat::from_decimal(&format!("{:?}", lo)).ok().unwrap(), Rat::from_decimal(&format!("{:?}", hi)).ok().unwrap());
        with(|c| { let a = c.new_var(name, l, h); F::N(c.intern(sym::ctx::Val::poly(sym::poly::Poly::atom(a)))) })
    }
    pub fn int(&mut self, name: &str, k: usize) -> usize { with(|c| c.choose(name, k)) }
    /// Names a quantity that the solver may reason about instead of the coordinates behind it.
    pub fn hint(&mut self, x: F) { if let F::N(i) = x { with(|c| { let v = c.vals[i as usize].clone(); c.hint(&v) }) } }
    /// From here on quotients get names of their own instead of being multiplied out.
    pub fn cut(&mut self) { with(|c| c.cut = true) }
    pub fn assume(&mut self, b: B) { with(|c| c.assume(b)) }
    pub fn check(&mut self, label: &str, b: B) { with(|c| c.check(label, b)) }
    pub fn reached(&mut self, label: &str) { with(|c| c.reached(label)) }
}

pub fn panics(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(p) => { if p.is::<Stop>() { std::panic::resume_unwind(p); } true }
    }
}

pub struct Harness { pub prop: &'static str, pub name: &'static str, pub run: fn(&mut Cx), pub about: &'static str, pub bounds: &'static str, pub thorough: bool, pub reach: &'static [&'static str] }

struct Job { prefix: Vec<u16>, pre: Option<String>, smt: Option<(String, Vec<(u32, String)>)>, near: Vec<String> }

#[derive(Default)]
struct Report {
    paths: u64, completed: u64, infeasible: u64, pruned: u64, unverified: u64,
    stops: BTreeMap<String, u64>,
    stats: Stats,
    undecided: BTreeMap<String, u64>,
    unconfirmed: BTreeMap<String, (u64, String)>,
    reached: BTreeSet<String>,
    functions: BTreeSet<&'static str>,
    left: usize,
    busy_s: f64,
    validated: u64,
    mismatches: Vec<String>,
    samples: Vec<String>,
    validating: u32,
}
struct Violation { harness: &'static str, label: String, kind: String, model: String, detail: String, known: Option<String> }

struct Shared {
    queues: Vec<VecDeque<Job>>,
    spent: Vec<f64>,
    running: usize,
    reports: Vec<Report>,
    violations: Vec<Violation>,
    replays: BTreeMap<String, u32>,
    stop: bool,
    tick: usize,
}

fn add(a: &mut Stats, b: &Stats) {
    a.decisions += b.decisions; a.checks += b.checks; a.checks_trivial += b.checks_trivial; a.checks_shared += b.checks_shared;
    a.queries += b.queries; a.unsat += b.unsat; a.sat += b.sat; a.unknown += b.unknown; a.feas_queries += b.feas_queries; a.feas_unknown += b.feas_unknown;
    a.claim_queries += b.claim_queries; a.claims_confirmed += b.claims_confirmed; a.claims_unknown += b.claims_unknown; a.claims_refuted += b.claims_refuted; a.claims_unsent += b.claims_unsent;
    a.solver_s += b.solver_s; a.max_query_s = a.max_query_s.max(b.max_query_s);
}

fn model_text(h: &str, m: &Model) -> String {
    let mut s = format!("harness {}\n", h);
    for (k, v) in &m.reals { s.push_str(&format!("real {} {:?}\n", k, *v as f32)); }
    for (k, v) in &m.chooses { s.push_str(&format!("choose {} {}\n", k, v)); }
    s
}

/// Runs the model on the real crate. Some(detail) if the property is violated there.
fn replay(bin: &str, h: &str, file: &str) -> (Option<String>, String) {
    let (v, why, _) = replay_full(bin, h, file);
    (v, why)
}
fn replay_full(bin: &str, h: &str, file: &str) -> (Option<String>, String, BTreeSet<String>) {
    use std::process::{Command, Stdio};
    let child = Command::new("sh").arg("-c").arg("ulimit -v 8000000; exec \"$0\" \"$@\"").args([bin, h, file]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn();
    let mut child = match child { Ok(c) => c, Err(e) => return (None, format!("cannot run the replayer: {}", e), BTreeSet::new()) };
    let end = Instant::now() + Duration::from_secs(20);
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                let mut out = String::new();
                if let Some(mut e) = child.stderr.take() { use std::io::Read; let _ = e.read_to_string(&mut out); }
                let line = out.lines().filter(|l| l.starts_with("REPLAY")).last().unwrap_or("").to_string();
                let labels = out.lines().filter_map(|l| l.strip_prefix("REACHED ")).map(|l| l.to_string()).collect();
                return match st.code() {
                    Some(1) => (Some(line), String::new(), labels),
                    Some(0) | Some(3) | Some(2) => (None, line, labels),
                    _ => (Some(format!("REPLAY violated: the process died ({:?}) {}", st, out.lines().last().unwrap_or(""))), String::new(), labels),
                };
            }
            Ok(None) => {
                if Instant::now() > end { let _ = child.kill(); let _ = child.wait(); return (Some("REPLAY violated: does not terminate".into()), String::new(), BTreeSet::new()); }
                std::thread::sleep(Duration::from_millis(3));
            }
            Err(e) => return (None, format!("{}", e), BTreeSet::new()),
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"');
    o
}

pub fn main(reg: Vec<Harness>) {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" { for h in &reg { println!("{}\t{}\t{}\t{}\t{}", h.prop, h.name, if h.thorough { "thorough" } else { "quick" }, h.about, h.bounds); } return; }
    let (prop, out, bin, dir) = (a[2].clone(), a[3].clone(), a[4].clone(), a[5].clone());
    let secs: f64 = a[6].parse().unwrap();
    let threads: usize = a[7].parse().unwrap();
    let thorough = a[8] == "thorough";
    let only = a.get(9).cloned();
    let verbose = std::env::var("SYM_VERBOSE").is_ok();
    let dump = std::env::var("SYM_DUMP").is_ok();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    // properties whose findings are known: lines "harness label-prefix"
    let known: Vec<(String, String, String)> = std::env::var("SYM_KNOWN").unwrap_or_default().lines().filter_map(|l| { let w: Vec<&str> = l.split('\t').collect(); if w.len() == 3 { Some((w[0].into(), w[1].into(), w[2].into())) } else { None } }).collect();
    let hs: Arc<Vec<Harness>> = Arc::new(reg.into_iter().filter(|h| h.prop == prop && (thorough || !h.thorough) && only.as_ref().map(|o| h.name.contains(o.as_str())).unwrap_or(true)).collect());
    if hs.is_empty() { eprintln!("no harness for {}", prop); std::process::exit(2); }
    let n = hs.len();
    let mut queues: Vec<VecDeque<Job>> = (0..n).map(|_| VecDeque::new()).collect();
    for q in &mut queues { q.push_back(Job { prefix: vec![], pre: None, smt: None, near: vec![] }); }
    let shared = Arc::new((Mutex::new(Shared { queues, spent: vec![0.0; n], running: 0, reports: (0..n).map(|_| Report::default()).collect(), violations: vec![], replays: BTreeMap::new(), stop: false, tick: 0 }), Condvar::new()));
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SYM_PANICS").is_ok() && !i.payload().is::<Stop>() { eprintln!("{}", i); }
    }));
    let start = Instant::now();
    let deadline = start + Duration::from_secs_f64(secs);
    let _ = std::fs::create_dir_all(&dir);
    let seen: Vec<Arc<Mutex<HashSet<u64>>>> = (0..n).map(|_| Arc::new(Mutex::new(HashSet::new()))).collect();
    let mut handles = vec![];
    for t in 0..threads {
        let (hs, shared, seen, bin, dir, known) = (hs.clone(), shared.clone(), seen.clone(), bin.clone(), dir.clone(), known.clone());
        handles.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let (feas, check) = if thorough { (4000, 60000) } else { (1000, 6000) };
            sym::CTX.with(|c| *c.borrow_mut() = Some(Ctx::new(Config { feas_ms: feas, check_ms: check, max_decisions: 400, seed, dump })));
            let mut fork_solver = Solver::new();
            loop {
                let (hi, job) = {
                    let (m, cv) = &*shared;
                    let mut s = m.lock().unwrap();
                    loop {
                        if s.stop || Instant::now() > deadline { s.stop = true; cv.notify_all(); return; }
                        // the harness with work that has had the least time so far
                        let mut best: Option<usize> = None;
                        for i in 0..s.queues.len() { if !s.queues[i].is_empty() && best.map(|b| s.spent[i] < s.spent[b]).unwrap_or(true) { best = Some(i); } }
                        if let Some(i) = best {
                            s.tick += 1;
                            let j = if s.tick % 2 == 0 { s.queues[i].pop_back() } else { s.queues[i].pop_front() };
                            s.running += 1;
                            // charge something at once so that threads spread over the harnesses
                            s.spent[i] += 0.001;
                            break (i, j.unwrap());
                        }
                        if s.running == 0 { s.stop = true; cv.notify_all(); return; }
                        s = cv.wait_timeout(s, Duration::from_millis(50)).unwrap().0;
                    }
                };
                let t0 = Instant::now();
                let r = one(&hs[hi], job, &mut fork_solver, &seen[hi], feas, deadline);
                let dt = t0.elapsed().as_secs_f64();
                // replay outside of the lock
                let mut found = vec![];
                let mut unconf = vec![];
                for ce in r.cex {
                    let key = format!("{}|{}|{}", hi, ce.kind, ce.label);
                    let count = { let mut s = shared.0.lock().unwrap(); let e = s.replays.entry(key).or_insert(0); *e += 1; *e };
                    if count > 40 { unconf.push((ce.label.clone(), "further candidates not replayed".to_string())); continue; }
                    let mut hit = None;
                    let mut last = String::new();
                    for (k, m) in ce.models.iter().enumerate() {
                        let text = model_text(hs[hi].name, m);
                        let mut h = 0xcbf29ce484222325u64;
                        for b in text.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
                        let file = format!("{}/{}-{:016x}.model", dir, hs[hi].name, h);
                        let _ = std::fs::write(&file, &text);
                        let (v, why) = replay(&bin, hs[hi].name, &file);
                        if let Some(d) = v { hit = Some((file, d)); break; }
                        last = format!("{} {}", why, text.replace('\n', "; "));
                        let _ = std::fs::remove_file(&file);
                    }
                    match hit {
                        Some((file, d)) => {
                            let known = known.iter().find(|(h, l, _)| h == hs[hi].name && ce.label.starts_with(l.as_str())).map(|k| k.2.clone());
                            found.push(Violation { harness: hs[hi].name, label: ce.label, kind: ce.kind, model: file, detail: d, known });
                        }
                        None => unconf.push((ce.label, last)),
                    }
                }
                let mut validation = None;
                if let Some((m, labels)) = r.witness {
                    let go = { let mut s = shared.0.lock().unwrap(); let rep = &mut s.reports[hi]; let c = rep.validating < 6; if c { rep.validating += 1; } c };
                    if go {
                        let text = model_text(hs[hi].name, &m);
                        let file = format!("{}/{}-w{}.model", dir, hs[hi].name, t);
                        let _ = std::fs::write(&file, &text);
                        let (v, why, got) = replay_full(&bin, hs[hi].name, &file);
                        let _ = std::fs::remove_file(&file);
                        let sample = text.trim().replace('\n', "; ");
                        validation = Some(if v.is_none() && why.contains("held") && got == labels { Ok(sample) } else { Err(format!("{} {} labels {:?} vs {:?}: {}", v.unwrap_or_default(), why, labels, got, sample)) });
                    }
                }
                let (m, cv) = &*shared;
                let mut s = m.lock().unwrap();
                s.running -= 1;
                s.spent[hi] += dt;
                for f in r.forks { s.queues[hi].push_back(Job { prefix: f.prefix, pre: f.pre, smt: f.smt, near: f.near }); }
                let rep = &mut s.reports[hi];
                rep.busy_s += dt;
                match r.outcome.as_str() { "pruned" => rep.pruned += 1, "infeasible" => { rep.paths += 1; rep.infeasible += 1; } "done" | "panic" => { rep.paths += 1; rep.completed += 1; } o => { rep.paths += 1; *rep.stops.entry(o.to_string()).or_insert(0) += 1; } }
                if r.unverified { rep.unverified += 1; }
                add(&mut rep.stats, &r.stats);
                for u in r.undecided { *rep.undecided.entry(u).or_insert(0) += 1; }
                for (l, w) in unconf { let e = rep.unconfirmed.entry(l).or_insert((0, w)); e.0 += 1; }
                rep.reached.extend(r.reached);
                rep.functions.extend(r.functions);
                match validation { Some(Ok(x)) => { rep.validated += 1; rep.samples.push(x); } Some(Err(x)) => { rep.validating -= 1; if rep.mismatches.len() < 5 { rep.mismatches.push(x); } else { rep.validating = 99; } } None => {} }
                if verbose { eprintln!("[{:.1}s] {} {} ({:.2}s) checks {} queue {}", start.elapsed().as_secs_f64(), hs[hi].name, r.outcome, dt, r.stats.checks, s.queues[hi].len()); }
                for v in found {
                    if v.known.is_none() { s.stop = true; }
                    if v.known.is_none() || !s.violations.iter().any(|x| x.known == v.known) { s.violations.push(v); }
                }
                cv.notify_all();
            }
        }).unwrap());
        let _ = t;
    }
    for h in handles { let _ = h.join(); }
    let s = shared.0.lock().unwrap();
    let mut o = String::from("{\n");
    o.push_str(&format!("\"property\":{},\"wall_s\":{:.2},\"budget_s\":{},\"threads\":{},\n\"harnesses\":[\n", esc(&prop), start.elapsed().as_secs_f64(), secs, threads));
    for (i, h) in hs.iter().enumerate() {
        let r = &s.reports[i];
        if i > 0 { o.push_str(",\n"); }
        let left = s.queues[i].len();
        let st = &r.stats;
        o.push_str(&format!("{{\"name\":{},\"about\":{},\"bounds\":{},\"paths\":{},\"completed\":{},\"infeasible\":{},\"pruned\":{},\"unverified\":{},\"unexplored\":{},\"busy_s\":{:.2},", esc(h.name), esc(h.about), esc(h.bounds), r.paths, r.completed, r.infeasible, r.pruned, r.unverified, left, r.busy_s));
        o.push_str(&format!("\"claim_queries\":{},\"claims_confirmed\":{},\"claims_unknown\":{},\"claims_refuted\":{},\"claims_unsent\":{},", st.claim_queries, st.claims_confirmed, st.claims_unknown, st.claims_refuted, st.claims_unsent));
        o.push_str(&format!("\"decisions\":{},\"checks\":{},\"checks_trivial\":{},\"checks_shared\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"feas_queries\":{},\"feas_unknown\":{},\"solver_s\":{:.2},\"max_query_s\":{:.2},", st.decisions, st.checks, st.checks_trivial, st.checks_shared, st.queries, st.unsat, st.sat, st.unknown, st.feas_queries, st.feas_unknown, st.solver_s, st.max_query_s));
        let m = |b: &BTreeMap<String, u64>| b.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        let missing: Vec<String> = h.reach.iter().filter(|x| !r.reached.contains(**x)).map(|x| esc(x)).collect();
        o.push_str(&format!("\"stops\":{{{}}},\"undecided\":{{{}}},\"unconfirmed\":{{{}}},\"reached\":[{}],\"not_reached\":[{}],\"functions\":[{}],\"validated\":{},\"validation_mismatches\":[{}],\"samples\":[{}]}}",
            m(&r.stops), m(&r.undecided), r.unconfirmed.iter().map(|(k, v)| format!("{}:[{},{}]", esc(k), v.0, esc(&v.1))).collect::<Vec<_>>().join(","),
            r.reached.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), missing.join(","), r.functions.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), r.validated, r.mismatches.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), r.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")));
    }
    o.push_str("\n],\n\"violations\":[");
    for (i, v) in s.violations.iter().enumerate() {
        if i > 0 { o.push(','); }
        o.push_str(&format!("{{\"harness\":{},\"label\":{},\"kind\":{},\"model\":{},\"detail\":{},\"known\":{}}}", esc(v.harness), esc(&v.label), esc(&v.kind), esc(&v.model), esc(&v.detail), v.known.as_ref().map(|k| esc(k)).unwrap_or("null".into())));
    }
    o.push_str("]\n}\n");
    std::fs::write(&out, o).unwrap();
}

struct PathResult { outcome: String, forks: Vec<Fork>, cex: Vec<Counterexample>, undecided: Vec<String>, reached: BTreeSet<String>, functions: Vec<&'static str>, stats: Stats, unverified: bool, witness: Option<(Model, BTreeSet<String>)> }

fn one(h: &Harness, job: Job, solver: &mut Solver, seen: &Arc<Mutex<HashSet<u64>>>, feas_ms: u64, deadline: Instant) -> PathResult {
    let mut stats = Stats::default();
    let mut witness = None;
    let mut unverified = false;
    let empty = |o: &str, stats: Stats| PathResult { outcome: o.into(), forks: vec![], cex: vec![], undecided: vec![], reached: BTreeSet::new(), functions: vec![], stats, unverified: false, witness: None };
    let forks_log = std::env::var("SYM_FORKS").is_ok();
    let mut ask = |smt: &str, ms: u64, ns: &[String], quick: bool| {
        let left = deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        let t = Instant::now();
        let r = if left == 0 { Answer::Unknown } else if quick { solver.quick(smt, ms.min(left), ns) } else { solver.solve(smt, ms.min(left), ns) };
        stats.feas_queries += 1;
        stats.solver_s += t.elapsed().as_secs_f64();
        if forks_log && t.elapsed().as_secs_f64() > 0.05 { let l = smt.lines().last().unwrap_or(""); eprintln!("slow {:.2}s limit {} quick {} {}: {}", t.elapsed().as_secs_f64(), ms, quick, r.kind(), &l[..l.len().min(160)]); }
        r
    };
    let mut pruned = false;
    if let Some(pre) = &job.pre { if let Answer::Unsat = ask(pre, feas_ms, &[], false) { pruned = true; } }
    if let (Some((smt, names)), false) = (&job.smt, pruned) {
        let ns: Vec<String> = names.iter().map(|x| x.1.clone()).collect();
        let mut ans = ask(smt, 40, &ns, true);
        // close to what the path it forks from is known to accept
        let mut rng = job.prefix.iter().fold(0x9E3779B97F4A7C15u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) | 1;
        for keep in [50, 70, 85] {
            if !matches!(ans, Answer::Unknown) || job.near.is_empty() { break; }
            let mut q = smt.clone();
            for e in &job.near { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; if rng % 100 < keep { q.push_str("(assert "); q.push_str(e); q.push_str(")\n"); } }
            if let Answer::Sat(v) = ask(&q, 80, &ns, true) { ans = Answer::Sat(v); }
        }
        if let Answer::Unknown = ans { ans = ask(smt, feas_ms, &ns, false); }
        match ans {
            Answer::Unsat => pruned = true,
            Answer::Sat(v) => { let mut w = BTreeMap::new(); for ((a, _), x) in names.iter().zip(v) { w.insert(*a, x); } witness = Some(w); }
            Answer::Unknown => unverified = true,
        }
    }
    if unverified && std::env::var("SYM_FORKS").is_ok() { if let Some((q, _)) = &job.smt { let l = q.lines().last().unwrap_or(""); eprintln!("unverified: {} decisions, len {}, pre {}: {}", job.prefix.len(), l.len(), job.pre.is_some(), &l[..l.len().min(300)]); if std::env::var("SYM_FORKS").unwrap() == "2" { eprintln!("{}", q); } } }
    if unverified { stats.feas_unknown += 1; }
    if pruned { return empty("pruned", stats); }
    sym::reset_ticks();
    with(|c| { c.stats = Stats::default(); c.seen = Some(seen.clone()); if c.harness != h.name { c.harness = h.name.to_string(); c.reached_before.clear(); } c.reset(job.prefix, witness); c.deadline = Some(deadline); });
    let r = catch_unwind(AssertUnwindSafe(|| (h.run)(&mut Cx)));
    let outcome = match r {
        Ok(()) => "done".to_string(),
        Err(p) => match p.downcast_ref::<Stop>() {
            Some(Stop::Infeasible) => "infeasible".into(),
            Some(Stop::Unsupported(s)) => format!("unsupported: {}", s),
            Some(Stop::Limit(s)) => {
                if s == sym::HANG { with(|c| c.panicked_as("does not terminate", "hang")); }
                format!("limit: {}", s)
            }
            None => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into());
                with(|c| c.panicked(&format!("panic: {}", m.lines().next().unwrap_or(""))));
                "panic".into()
            }
        },
    };
    with(|c| {
        if outcome == "done" { c.confirm(); }
        add(&mut stats, &c.stats);
        if forks_log && (outcome.starts_with("unsup") || unverified) { eprintln!("choices {} {}: {:?}", if unverified { "unverified" } else { "" }, outcome, c.chooses); }
        let w = if outcome == "done" { c.witness_model().map(|m| (m, c.passed.clone())) } else { None };
        PathResult { outcome, witness: w, forks: std::mem::take(&mut c.forks), cex: std::mem::take(&mut c.cex), undecided: std::mem::take(&mut c.undecided), reached: std::mem::take(&mut c.reached), functions: sym::take_entered(), stats, unverified }
    })
}
