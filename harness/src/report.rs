//! Cases, statistics, evidence, violations.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub case: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub unit_test: Option<String>,
}

#[derive(Default)]
pub struct Ctx {
    pub case: String,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub evaluations: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, f64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub violations: Vec<Violation>,
    pub capped: bool,
}

impl Ctx {
    pub fn fail(&mut self, msg: String, trace: Vec<String>) {
        let case = self.case.clone();
        self.violations.push(Violation { case, msg, trace, unit_test: None });
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
    #[inline]
    pub fn outcome(&mut self, x: f64) {
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(x.to_bits());
        }
    }
    pub fn note_max(&mut self, k: &str, v: f64) {
        let e = self.notes.entry(format!("max {}", k)).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v
        }
    }
    pub fn note_add(&mut self, k: &str, v: f64) {
        *self.notes.entry(k.to_string()).or_insert(0.0) += v
    }
    pub fn mark(&mut self, set: &str, v: u64) {
        self.sets.entry(set.to_string()).or_default().insert(v);
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 2 {
            self.samples.push(s)
        }
    }
    /// Register one comparison of an estimate with the oracle.
    #[inline]
    pub fn expect(&mut self, got: f64, want: &[f64], what: impl Fn() -> (String, Vec<String>)) -> bool {
        self.evaluations += 1;
        self.outcome(got);
        if crate::refm::close_any(got, want) {
            return true;
        }
        let (w, t) = what();
        self.fail(format!("{}: estimate {} but expected {:?}", w, got, want), t);
        false
    }
}

pub struct Case {
    pub id: String,
    pub run: Box<dyn Fn(&mut Ctx) + Send + Sync>,
    /// A search whose size depends on the implementation: runs after the others, and
    /// within its share of the time.
    pub search: bool,
}
pub fn case(id: impl Into<String>, f: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Case {
    Case { id: id.into(), run: Box::new(f), search: false }
}
pub fn search(id: impl Into<String>, f: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Case {
    Case { id: id.into(), run: Box::new(f), search: true }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub cases: Vec<Case>,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic '{}' at {}", m, at));
    }));
}
/// Run code under test; a panic becomes an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
/// True if the last panic came from the harness itself rather than from the code
/// under test (an engine error, never a verdict).
fn harness_panic(msg: &str) -> bool {
    msg.contains(" at src/") && !msg.contains("IMPL: ")
}

pub struct Total {
    pub ctx: Ctx,
    pub cases: usize,
    pub wall: f64,
    pub engine_error: Option<String>,
}

pub static PROGRESS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
thread_local! { pub static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(63) }; }
/// Heartbeat of the exploring thread (a stalled one means non-termination).
#[inline]
pub fn beat() {
    SLOT.with(|s| PROGRESS[s.get()].fetch_add(1, Ordering::Relaxed));
}

static DEADLINE: Mutex<Option<Instant>> = Mutex::new(None);
/// The whole check has to answer in time even on an implementation whose state
/// space is larger than expected; what is left out is reported as capped.
pub fn set_deadline(t: Tier) {
    let s = if t == Tier::Quick { 420 } else { 3600 };
    *DEADLINE.lock().unwrap() = Some(Instant::now() + std::time::Duration::from_secs(s));
}
pub fn past_deadline() -> bool {
    DEADLINE.lock().unwrap().map_or(false, |d| Instant::now() > d)
}
thread_local! { static SHARE: std::cell::Cell<Option<Instant>> = const { std::cell::Cell::new(None) }; }
pub fn past_share() -> bool {
    past_deadline() || SHARE.with(|s| s.get()).map_or(false, |d| Instant::now() > d)
}
/// Twice an equal part of the time left.
fn take_share(threads: usize, cases: usize) {
    let now = Instant::now();
    let share = DEADLINE.lock().unwrap().map(|d| {
        let left = d.saturating_duration_since(now).as_secs_f64();
        now + std::time::Duration::from_secs_f64((2.0 * left * threads as f64 / cases as f64).max(5.0))
    });
    SHARE.with(|s| s.set(share));
}
/// A violation has been found: finish soon.
fn hurry() {
    let soon = Instant::now() + std::time::Duration::from_secs(60);
    let mut d = DEADLINE.lock().unwrap();
    if d.map_or(false, |d| d > soon) {
        *d = Some(soon);
    }
}

pub fn run(prop: &Prop, only: Option<&str>, threads: usize) -> Total {
    let start = Instant::now();
    let mut cases: Vec<&Case> = prop.cases.iter().filter(|c| only.map_or(true, |o| c.id == o)).collect();
    cases.sort_by_key(|c| c.search);
    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let total: Mutex<Ctx> = Mutex::new(Ctx::default());
    let err: Mutex<Option<String>> = Mutex::new(None);
    let current: Mutex<Vec<Option<String>>> = Mutex::new(vec![None; threads]);
    let times: Mutex<Vec<(f64, String)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..threads {
            let (next, total, err, cases, current, times) = (&next, &total, &err, &cases, &current, &times);
            hs.push(s.spawn(move || {
                SLOT.with(|x| x.set(t));
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases.len() || total.lock().unwrap().violations.len() >= 8 {
                        break;
                    }
                    if past_deadline() {
                        total.lock().unwrap().capped = true;
                        break;
                    }
                    current.lock().unwrap()[t] = Some(cases[i].id.clone());
                    take_share(threads, cases.len() - i);
                    let t0 = Instant::now();
                    let mut c = Ctx { case: cases[i].id.clone(), ..Ctx::default() };
                    if let Err(m) = guard(|| (cases[i].run)(&mut c)) {
                        if harness_panic(&m) {
                            *err.lock().unwrap() = Some(format!("case {}: {}", cases[i].id, m));
                        } else if !c.failed() {
                            c.fail(format!("the code under test panicked: {}", m), vec![]);
                        }
                    }
                    beat();
                    current.lock().unwrap()[t] = None;
                    times.lock().unwrap().push((t0.elapsed().as_secs_f64(), cases[i].id.clone()));
                    if c.failed() && only.is_none() {
                        hurry();
                    }
                    merge(&mut total.lock().unwrap(), c);
                }
            }));
        }
        // watchdog
        let (current, done, total, prop_id) = (&current, &done, &total, prop.id);
        s.spawn(move || {
            let mut last = vec![(0u64, Instant::now()); threads];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                for t in 0..threads {
                    let p = PROGRESS[t].load(Ordering::Relaxed);
                    let cur = current.lock().unwrap()[t].clone();
                    if p != last[t].0 || cur.is_none() {
                        last[t] = (p, Instant::now());
                    } else if last[t].1.elapsed().as_secs() > 150 {
                        let v = Violation {
                            case: cur.clone().unwrap(),
                            msg: "an operation did not return within 150 s".into(),
                            trace: vec![],
                            unit_test: None,
                        };
                        let path = write_replay(prop_id, &v, 0);
                        println!("{}: {}", v.case, v.msg);
                        println!("VIOLATION property={} replay={}", prop_id, path);
                        let _ = total;
                        std::process::exit(1);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    if std::env::var("MC_TIMES").is_ok() {
        let mut t = times.into_inner().unwrap();
        t.sort_by(|a, b| b.0.total_cmp(&a.0));
        for (s, c) in t.iter().take(12) {
            eprintln!("  {:8.2}s {}", s, c);
        }
    }
    Total {
        ctx: total.into_inner().unwrap(),
        cases: cases.len(),
        wall: start.elapsed().as_secs_f64(),
        engine_error: err.into_inner().unwrap(),
    }
}

fn merge(t: &mut Ctx, c: Ctx) {
    t.states += c.states;
    t.transitions += c.transitions;
    t.traces += c.traces;
    t.evaluations += c.evaluations;
    t.capped |= c.capped;
    if t.outcomes.len() < 2_000_000 {
        t.outcomes.extend(c.outcomes);
    }
    if t.samples.len() < 6 {
        for s in c.samples.into_iter().take(1) {
            t.samples.push(format!("[{}] {}", c.case, s));
        }
    }
    for (k, v) in c.notes {
        if k.starts_with("max ") {
            let e = t.notes.entry(k).or_insert(f64::NEG_INFINITY);
            if v > *e {
                *e = v
            }
        } else {
            *t.notes.entry(k).or_insert(0.0) += v
        }
    }
    for (k, v) in c.sets {
        t.sets.entry(k).or_default().extend(v);
    }
    t.violations.extend(c.violations);
}

pub fn verif() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn write_replay(prop: &str, v: &Violation, n: usize) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, prop, n);
    let j = serde_json::json!({
        "property": prop,
        "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        "case": v.case,
        "message": v.msg,
        "trace": v.trace,
        "unit_test": v.unit_test,
        "how_to_replay": format!("cd /verif && ./check.sh replay {}", path),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

/// Entries "known: property=Pnn case=<case id> ..." of /verif/known_findings.txt.
pub fn known(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let (p, c, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == format!("property={}", prop) {
                if let Some(c) = c.strip_prefix("case=") {
                    v.push((c.to_string(), d.to_string()));
                }
            }
        }
    }
    v
}

pub fn finish(prop: &Prop, tier: Tier, t: Total, only: bool) -> i32 {
    let known = known(prop.id);
    let mut bad = vec![];
    for v in t.ctx.violations {
        if let Some((c, d)) = known.iter().find(|(c, _)| *c == v.case) {
            println!("KNOWN-FINDING: property={} case={} {}", prop.id, c, d);
        } else {
            bad.push(v);
        }
    }
    let sets: BTreeMap<String, usize> = t.ctx.sets.iter().map(|(k, v)| (k.clone(), v.len())).collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": t.ctx.states,
            "transitions": t.ctx.transitions,
            "traces_validated_against_impl": t.ctx.traces,
            "evaluations": t.ctx.evaluations,
            "distinct_nontrivial": t.ctx.outcomes.len(),
            "rule": prop.rule,
            "samples": t.ctx.samples,
            "exhaustive": !t.ctx.capped && bad.is_empty() && !only,
            "cases": t.cases,
            "measured": t.ctx.notes,
            "measured_distinct": sets,
        },
        "assumptions": prop.assumptions,
        "wall_s": t.wall,
        "violations": bad.len(),
    });
    let path = format!("{}/evidence/{}.json", verif(), prop.id);
    if !only {
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write {}: {}", path, e);
            return 3;
        }
    }
    println!(
        "{}: cases={} states={} transitions={} traces={} evaluations={} distinct-estimates={} capped={} wall={:.1}s",
        prop.id, t.cases, t.ctx.states, t.ctx.transitions, t.ctx.traces, t.ctx.evaluations, t.ctx.outcomes.len(), t.ctx.capped, t.wall
    );
    for (k, v) in &t.ctx.notes {
        println!("  {} = {}", k, v);
    }
    for (k, v) in &sets {
        println!("  distinct {} = {}", k, v);
    }
    if !bad.is_empty() {
        for (i, v) in bad.iter().enumerate().take(8) {
            let p = write_replay(prop.id, v, i);
            println!("{}: {}", v.case, v.msg);
            for l in v.trace.iter().take(40) {
                println!("    {}", l);
            }
            println!("VIOLATION property={} replay={}", prop.id, p);
        }
        return 1;
    }
    if let Some(e) = t.engine_error {
        println!("ENGINE ERROR: {}", e);
        return 3;
    }
    if t.ctx.evaluations == 0 {
        println!("ENGINE ERROR: nothing was explored");
        return 3;
    }
    0
}
