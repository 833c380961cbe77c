//! Runs the cases of one check, shrinks and reports failures, writes the evidence file.
use crate::tape::{shrink, Tape};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Violation {
    /// short stable class of the failure (used to keep shrinking on the same failure, and by the
    /// known-findings file)
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Violation>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! check {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !($c) { return $crate::report::fail($sig, format!($($a)*)); }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub verbose: bool,
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub evals: u64,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.trace.push(f());
        }
    }
}

#[derive(Clone, Copy)]
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    /// how cases are made
    pub gen: &'static str,
    /// what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick_cases: u64,
    pub thorough_cases: u64,
    pub case: fn(&mut Tape, &mut Ctx) -> Res,
    /// deterministic, exhaustive part run before the generated cases; returns (evaluations, note)
    pub exhaustive: Option<fn(bool) -> Result<(u64, String), Violation>>,
}

fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn esc(s: &str) -> serde_json::Value {
    serde_json::Value::String(s.to_string())
}

enum Outcome {
    Pass,
    Fail(Violation),
    HarnessPanic(String),
}

fn run_case(c: &Check, t: &mut Tape, ctx: &mut Ctx) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| (c.case)(t, ctx))) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(v)) => Outcome::Fail(v),
        Err(e) => Outcome::HarnessPanic(format!("{} at {}", panic_text(e), WHERE.with(|w| w.borrow().clone()))),
    }
}

thread_local! { static WHERE: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        WHERE.with(|w| *w.borrow_mut() = l);
    }));
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

fn mix(seed: u64, id: &str, idx: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = crate::tape::Rng::new(h ^ idx.wrapping_mul(0xD1342543DE82EF95));
    r.next()
}

struct Known {
    sig: String,
    what: String,
}
fn known_findings(id: &str) -> Vec<Known> {
    let p = root().join("known_findings.json");
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json is not JSON");
        for k in v["known"].as_array().cloned().unwrap_or_default() {
            if k["property"] == id {
                out.push(Known {
                    sig: k["signature"].as_str().unwrap_or("").into(),
                    what: k["what"].as_str().unwrap_or("").into(),
                });
            }
        }
    }
    out
}

pub fn run(c: &Check) -> i32 {
    let t0 = Instant::now();
    quiet_panics();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let thorough = tier == "thorough";
    let mut n = if thorough { c.thorough_cases } else { c.quick_cases };
    if let Some(x) = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()) {
        n = x;
    }
    // quick tiers are fixed work; this wall is only a safety net far above their cost
    let wall = Duration::from_secs(if thorough { 3 * 3600 } else { 600 });
    let known = known_findings(c.id);

    let mut exhaustive_evals = 0;
    let mut exhaustive_note = String::new();
    let mut found: Option<(u64, Vec<u64>, Vec<(usize, usize)>, Violation)> = None;
    let next = AtomicU64::new(std::env::var("VERIF_FROM").ok().and_then(|s| s.parse().ok()).unwrap_or(0));
    let first_bad = AtomicU64::new(u64::MAX);
    let bad: Mutex<Vec<(u64, Vec<u64>, Vec<(usize, usize)>, Violation)>> = Mutex::new(vec![]);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let evals = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let labels: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<(u64, Vec<u64>)>> = Mutex::new(vec![]);
    let threads: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let timed_out = AtomicUsize::new(0);
    let slots: Vec<Mutex<(String, u64)>> = (0..threads).map(|_| Mutex::new((String::new(), u64::MAX))).collect();
    let finished = AtomicUsize::new(0);
    {
        let (slots, finished) = (&slots, &finished);
        std::thread::scope(|s| {
            s.spawn(|| watchdog(c, seed, slots, finished));
            for w in 0..threads {
                let (slots, next, first_bad, timed_out, done, evals, samples, known, known_hits, bad, err, labels, distinct) =
                    (slots, &next, &first_bad, &timed_out, &done, &evals, &samples, &known, &known_hits, &bad, &err, &labels, &distinct);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    slots[w].lock().unwrap().0 = thread_id();
                    let mut my_labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let mut my_distinct: HashSet<u64> = HashSet::new();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > first_bad.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed() > wall {
                            timed_out.store(1, Ordering::SeqCst);
                            break;
                        }
                        let mut t = Tape::random(mix(seed, c.id, i));
                        let mut ctx = Ctx::default();
                        slots[w].lock().unwrap().1 = i;
                        let o = run_case(c, &mut t, &mut ctx);
                        done.fetch_add(1, Ordering::SeqCst);
                        evals.fetch_add(ctx.evals.max(1), Ordering::SeqCst);
                        for (k, v) in ctx.labels {
                            *my_labels.entry(k).or_insert(0) += v;
                        }
                        match o {
                            Outcome::Pass => {
                                if ctx.nontrivial {
                                    let mut h: u64 = 0xcbf29ce484222325;
                                    for v in &t.rec {
                                        h = (h ^ *v).wrapping_mul(0x100000001b3);
                                        h ^= h >> 29;
                                    }
                                    my_distinct.insert(h);
                                    if i < 64 {
                                        samples.lock().unwrap().push((i, t.rec.clone()));
                                    }
                                }
                            }
                            Outcome::Fail(v) => {
                                if known.iter().any(|k| k.sig == v.sig) {
                                    *known_hits.lock().unwrap().entry(v.sig).or_insert(0) += 1;
                                } else {
                                    first_bad.fetch_min(i, Ordering::SeqCst);
                                    bad.lock().unwrap().push((i, t.rec, t.spans, v));
                                }
                            }
                            Outcome::HarnessPanic(m) => {
                                *err.lock().unwrap() = Some(format!("case {i}: {m}"));
                            }
                        }
                    }
                    slots[w].lock().unwrap().1 = u64::MAX;
                    finished.fetch_add(1, Ordering::SeqCst);
                    let mut l = labels.lock().unwrap();
                    for (k, v) in my_labels {
                        *l.entry(k).or_insert(0) += v;
                    }
                    distinct.lock().unwrap().extend(my_distinct);
                }).unwrap();
            }
        });
        let mut b = bad.into_inner().unwrap();
        b.sort_by_key(|x| x.0);
        if !b.is_empty() {
            found = Some(b.remove(0));
        }
    }
    if let (Some(f), None) = (c.exhaustive, &found) {
        match catch_unwind(AssertUnwindSafe(|| f(thorough))) {
            Ok(Ok((e, note))) => {
                exhaustive_evals = e;
                exhaustive_note = note;
            }
            Ok(Err(v)) => found = Some((u64::MAX, vec![], vec![], v)),
            Err(e) => {
                eprintln!("harness error in exhaustive part: {}", panic_text(e));
                return 2;
            }
        }
    }
    if let Some(m) = err.into_inner().unwrap() {
        if found.is_none() {
            eprintln!("harness error (not a verdict): {m}");
            return 2;
        }
    }
    let nontrivial_seen = !distinct.lock().unwrap().is_empty();
    if found.is_none() && n >= 1000 && !nontrivial_seen && known_hits.lock().unwrap().is_empty() {
        eprintln!("no verdict: not one generated case was non-trivial");
        return 2;
    }
    if timed_out.load(Ordering::SeqCst) == 1 && found.is_none() && !thorough {
        eprintln!("inconclusive: safety wall-clock limit hit before the fixed work was done");
        return 2;
    }

    for k in &known {
        println!("KNOWN-FINDING: property={} {} [{}]", c.id, k.what, k.sig);
    }

    let mut violations = 0;
    if let Some((idx, rec, spans, v)) = found {
        violations = 1;
        let sig = v.sig.clone();
        let (best, msg, trace) = minimise(c, rec, spans, v);
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}-case{}.json", c.id, seed, if idx == u64::MAX { "exhaustive".to_string() } else { idx.to_string() }));
        let j = serde_json::json!({
            "property": c.id, "seed": seed, "case": idx, "signature": sig, "message": msg,
            "tape": best, "trace": trace,
            "how": "bash /verif/run.sh replay <this file> re-runs exactly this case",
        });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("counterexample for {} [{}]: {}", c.id, sig, msg);
        for l in &trace {
            println!("  {l}");
        }
        println!("VIOLATION property={} replay={}", c.id, path.display());
    }

    // samples, written out
    let mut smp = samples.into_inner().unwrap();
    smp.sort();
    let mut out_samples = vec![];
    for (i, rec) in smp.into_iter().take(3) {
        let mut t = Tape::replay(rec);
        let mut ctx = Ctx { verbose: true, ..Default::default() };
        let _ = run_case(c, &mut t, &mut ctx);
        out_samples.push(serde_json::json!({"case": i, "trace": ctx.trace}));
    }
    let mut rule = format!("{} {}", c.gen, c.rule);
    if !exhaustive_note.is_empty() {
        rule = format!("{rule} Exhaustive part: {exhaustive_note}");
    }
    let ev = serde_json::json!({
        "property": c.id, "tier": tier, "seed": seed, "level": c.level,
        "coverage": {
            "evaluations": done.load(Ordering::SeqCst) + exhaustive_evals,
            "calls_executed": evals.load(Ordering::SeqCst),
            "distinct_nontrivial": distinct.into_inner().unwrap().len(),
            "rule": esc(&rule),
            "samples": out_samples,
            "labels": labels.into_inner().unwrap(),
            "known_finding_hits": known_hits.into_inner().unwrap(),
        },
        "assumptions": c.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if std::env::var("VERIF_SHOW").is_ok() {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["labels"]).unwrap());
        println!("calls {} distinct {} wall {:.1}s", ev["coverage"]["calls_executed"], ev["coverage"]["distinct_nontrivial"], t0.elapsed().as_secs_f64());
    }
    violations
}

/// Shrinks in a thread of its own: a candidate that never returns must not keep the failure found
/// from being reported.
fn minimise(c: &Check, rec: Vec<u64>, spans: Vec<(usize, usize)>, v: Violation) -> (Vec<u64>, String, Vec<String>) {
    if rec.is_empty() {
        return (rec, v.msg, vec![]);
    }
    let c = *c;
    let best = std::sync::Arc::new(Mutex::new((rec.clone(), v.msg.clone())));
    let shared = best.clone();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut runner = |cand: &[u64]| -> Option<(Vec<u64>, Vec<(usize, usize)>)> {
                let mut t = Tape::replay(cand.to_vec());
                let mut ctx = Ctx::default();
                match run_case(&c, &mut t, &mut ctx) {
                    Outcome::Fail(v2) if v2.sig == v.sig => {
                        *shared.lock().unwrap() = (t.rec.clone(), v2.msg);
                        Some((t.rec, t.spans))
                    }
                    _ => None,
                }
            };
            let b = shrink(rec, spans, 20_000, Instant::now() + Duration::from_secs(45), &mut runner);
            let mut t = Tape::replay(b.clone());
            let mut ctx = Ctx { verbose: true, ..Default::default() };
            let mut msg = v.msg.clone();
            if let Outcome::Fail(v2) = run_case(&c, &mut t, &mut ctx) {
                msg = v2.msg;
            }
            let _ = tx.send((b, msg, ctx.trace));
        })
        .unwrap();
    rx.recv_timeout(Duration::from_secs(120)).unwrap_or_else(|_| {
        let (b, m) = best.lock().unwrap().clone();
        (b, m, vec![])
    })
}

/// processor seconds one case may take; the slowest take a few
const CASE_CPU_S: f64 = 100.0;
fn thread_id() -> String {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned())).unwrap_or_default()
}
fn cpu_s(tid: &str) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}
/// Reports a case that never ends (measured in processor time of its thread, not in wall time).
fn watchdog(c: &Check, seed: u64, slots: &[Mutex<(String, u64)>], finished: &AtomicUsize) {
    let mut seen: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); slots.len()];
    let mut n = 0u64;
    while finished.load(Ordering::SeqCst) < slots.len() {
        std::thread::sleep(Duration::from_millis(20));
        n += 1;
        if n % 50 != 0 {
            continue;
        }
        for (w, s) in slots.iter().enumerate() {
            let (tid, i) = s.lock().unwrap().clone();
            let Some(cpu) = cpu_s(&tid) else { continue };
            if i == u64::MAX || seen[w].0 != i {
                seen[w] = (i, cpu);
            } else if cpu - seen[w].1 > CASE_CPU_S {
                let dir = root().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!("{}-seed{}-case{}.json", c.id, seed, i));
                let msg = format!("case {i} of seed {seed} did not end within {CASE_CPU_S} s of processor time: a call that should return at once does not return");
                let j = serde_json::json!({"property": c.id, "seed": seed, "case": i, "signature": "does-not-end", "message": msg,
                    "random": mix(seed, c.id, i), "how": "bash /verif/run.sh replay <this file> re-runs exactly this case"});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
                let ev = serde_json::json!({"property": c.id, "tier": "quick", "seed": seed, "level": c.level,
                    "coverage": {"evaluations": i, "distinct_nontrivial": 0, "rule": c.rule, "samples": [msg.clone()]},
                    "assumptions": c.assumptions, "wall_s": 0.0, "violations": 1});
                let d = root().join("evidence");
                let _ = std::fs::create_dir_all(&d);
                let _ = std::fs::write(d.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap());
                println!("counterexample for {} [does-not-end]: {}", c.id, msg);
                println!("VIOLATION property={} replay={}", c.id, path.display());
                std::process::exit(1);
            }
        }
    }
}

/// run one command line against the checks of this binary
pub fn cli(cs: Vec<Check>) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap();
            replay(cs.iter().find(|c| c.id == id).expect("property of another binary"), &a[2])
        }
        Some(id) => match cs.iter().find(|c| c.id == id) {
            Some(c) => run(c),
            None => {
                eprintln!("unknown property {id}");
                2
            }
        },
        None => {
            for c in &cs {
                println!("{}", c.id);
            }
            0
        }
    };
    std::process::exit(code);
}

pub fn replay(c: &Check, path: &str) -> i32 {
    quiet_panics();
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    if v["case"].as_u64() == Some(u64::MAX) {
        // found by the exhaustive part: run that again
        return match (c.exhaustive.expect("no exhaustive part"))(false) {
            Ok(_) => {
                println!("no violation");
                0
            }
            Err(v) => {
                println!("[{}] {}", v.sig, v.msg);
                println!("VIOLATION property={} replay={}", c.id, path);
                1
            }
        };
    }
    if let Some(r) = v["random"].as_u64() {
        // a case that did not end
        let slots = vec![Mutex::new((String::new(), u64::MAX))];
        let finished = AtomicUsize::new(0);
        let seed = v["seed"].as_u64().unwrap_or(1);
        let i = v["case"].as_u64().unwrap_or(0);
        std::thread::scope(|s| {
            s.spawn(|| watchdog(c, seed, &slots, &finished));
            *slots[0].lock().unwrap() = (thread_id(), i);
            let _ = run_case(c, &mut Tape::random(r), &mut Ctx::default());
            finished.store(1, Ordering::SeqCst);
        });
        println!("the case ended");
        return 0;
    }
    let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let mut t = Tape::replay(tape);
    let mut ctx = Ctx { verbose: true, ..Default::default() };
    let o = run_case(c, &mut t, &mut ctx);
    for l in &ctx.trace {
        println!("  {l}");
    }
    match o {
        Outcome::Pass => {
            println!("no violation");
            0
        }
        Outcome::Fail(v) => {
            println!("[{}] {}", v.sig, v.msg);
            println!("VIOLATION property={} replay={}", c.id, path);
            1
        }
        Outcome::HarnessPanic(m) => {
            println!("harness error: {m}");
            2
        }
    }
}

/// the value of a call that may panic
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
