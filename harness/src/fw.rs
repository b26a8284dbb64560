//! Monitoring framework: deterministic case streams run on worker threads, a crash journal, three-valued
//! verdicts, evidence, known findings.
use crate::dict::Dict;
use crate::rng::{Rng, hash64};
use crate::schema::Schema;
use serde_json::{Map, Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<Value>,
    pub violations: Vec<(String, Value)>,
    pub viol_total: u64,
    pub known_hit: BTreeMap<String, u64>,
    pub inconclusive: Vec<String>,
    pub rules: Vec<String>,
}

pub struct Run {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub s: &'static Schema,
    pub dict: &'static Dict,
    pub threads: usize,
    pub out: PathBuf,
    pub only: Option<(String, u64)>,
    pub known: Vec<Value>,
    pub started: Instant,
    /// soft time budget for optional extra rounds
    pub budget: Duration,
    /// different violations kept (more only for experiments)
    pub limit: usize,
    pub st: Mutex<Stats>,
    journal: Option<std::fs::File>,
    pub stop: AtomicBool,
    pub round: AtomicU64,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: RefCell<usize> = const { RefCell::new(0) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}
/// Run `f`, turning a panic into its message
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub struct Case<'a> {
    pub run: &'a Run,
    pub stream: &'a str,
    pub idx: u64,
    pub rng: Rng,
    evals: u64,
    distinct: Vec<u64>,
    counters: HashMap<&'static str, u64>,
    sets: Vec<(&'static str, u64)>,
    samples: Vec<Value>,
    viol: Vec<(String, Value)>,
}

/// time after which the quick tier starts no further round
pub const QUICK_BUDGET: std::time::Duration = std::time::Duration::from_secs(12);
pub const SLOT_BYTES: usize = 256;
pub const WORKER_STACK: usize = 16 << 20;

impl Run {
    #[allow(clippy::too_many_arguments)]
    pub fn new(prop: &str, tier: Tier, seed: u64, out: PathBuf, only: Option<(String, u64)>, known: Vec<Value>, budget: Duration, s: &'static Schema, dict: &'static Dict) -> Run {
        let journal = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(out.join("journal")).ok();
        Run {
            prop: prop.into(),
            tier,
            seed,
            s,
            dict,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
            out,
            only,
            known,
            started: Instant::now(),
            budget,
            limit: std::env::var("MXMON_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(200),
            st: Mutex::new(Stats::default()),
            journal,
            stop: AtomicBool::new(false),
            round: AtomicU64::new(0),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Rounds with fresh random choices: at least one, then more until the time budget is used
    /// (quick: a few seconds, and none once something was found)
    pub fn rounds(&self, mut f: impl FnMut(u64)) {
        if let Some((s, _)) = &self.only {
            let r = s.rsplit_once('#').and_then(|x| x.1.parse().ok()).unwrap_or(0);
            self.round.store(r, Ordering::SeqCst);
            f(r);
            return;
        }
        let mut r = 0;
        loop {
            self.round.store(r, Ordering::SeqCst);
            f(r);
            r += 1;
            let done = if self.thorough() {
                self.started.elapsed() > self.budget
            } else {
                self.started.elapsed() > self.budget.min(QUICK_BUDGET) || self.st.lock().unwrap().viol_total > 0
            };
            if done || self.stop.load(Ordering::SeqCst) {
                break;
            }
        }
        self.counter("rounds", r);
    }
    pub fn counter(&self, k: &str, n: u64) {
        *self.st.lock().unwrap().counters.entry(k.into()).or_insert(0) += n;
    }
    pub fn rule(&self, r: &str) {
        let mut st = self.st.lock().unwrap();
        if !st.rules.iter().any(|x| x == r) {
            st.rules.push(r.into());
        }
    }
    pub fn inconclusive(&self, why: &str) {
        self.st.lock().unwrap().inconclusive.push(why.into());
    }
    fn journal_write(&self, slot: usize, stream: &str, idx: u64) {
        if let Some(j) = &self.journal {
            let mut b = [b' '; SLOT_BYTES];
            let t = format!("{stream} {idx}");
            let n = t.len().min(SLOT_BYTES - 1);
            b[..n].copy_from_slice(&t.as_bytes()[..n]);
            b[SLOT_BYTES - 1] = b'\n';
            let _ = j.write_all_at(&b, (slot * SLOT_BYTES) as u64);
        }
    }
    /// Run cases 0..n of `stream` on all cores.
    pub fn par<F>(&self, stream: &str, n: u64, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        self.par_n(stream, n, self.threads, f)
    }
    /// the same with a given number of worker threads (for cases that start threads of their own)
    pub fn par_n<F>(&self, stream: &str, n: u64, threads: usize, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        let stream = &format!("{stream}#{}", self.round.load(Ordering::SeqCst));
        if let Some((s, i)) = &self.only {
            if s == stream && *i < n {
                std::thread::scope(|sc| {
                    std::thread::Builder::new().stack_size(WORKER_STACK).spawn_scoped(sc, || self.one(stream, *i, 0, &f)).unwrap().join().unwrap();
                });
            }
            return;
        }
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for slot in 0..threads {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(WORKER_STACK)
                    .spawn_scoped(sc, move || {
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed) as u64;
                            if i >= n || self.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            self.one(stream, i, slot, f);
                        }
                        self.journal_write(slot, "-", 0);
                    })
                    .unwrap();
            }
        });
    }
    fn one<F: Fn(&mut Case)>(&self, stream: &str, i: u64, slot: usize, f: &F) {
        self.journal_write(slot, stream, i);
        let mut c = Case {
            run: self,
            stream,
            idx: i,
            rng: Rng::for_case(self.seed, &format!("{}/{stream}", self.prop), i),
            evals: 0,
            distinct: vec![],
            counters: HashMap::new(),
            sets: vec![],
            samples: vec![],
            viol: vec![],
        };
        if let Err(m) = no_panic(|| f(&mut c)) {
            // a panic that the case did not expect: from the code under test, or from the harness itself
            if m.contains("/verif/harness") || m.contains("src/gen_.rs") || m.contains("panicked at src/") {
                self.inconclusive(&format!("harness panic in {stream} {i}: {m}"));
            } else {
                c.fail(&format!("panic|{}", m.lines().next().unwrap_or("")), json!({"panic": m}));
            }
        }
        let mut st = self.st.lock().unwrap();
        st.evaluations += c.evals;
        st.distinct.extend(c.distinct);
        for (k, v) in c.counters {
            *st.counters.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in c.sets {
            st.sets.entry(k.to_string()).or_default().insert(v);
        }
        if st.samples.len() < 4 {
            let room = 4 - st.samples.len();
            st.samples.extend(c.samples.into_iter().take(room.min(1)));
        }
        for (sig, d) in c.viol {
            if self.known.iter().any(|k| k["signature"] == sig.as_str()) {
                *st.known_hit.entry(sig).or_insert(0) += 1;
                continue;
            }
            st.viol_total += 1;
            if st.violations.len() < self.limit && !st.violations.iter().any(|v| v.0 == sig) {
                st.violations.push((sig, d));
            }
        }
        if st.viol_total > 15 * self.limit as u64 {
            self.stop.store(true, Ordering::SeqCst);
        }
    }
}

impl<'a> Case<'a> {
    /// One oracle evaluation on a case identified by `key` (distinct, non-trivial cases are counted by it)
    pub fn eval(&mut self, key: &[u8]) {
        self.evals += 1;
        self.distinct.push(hash64(key));
    }
    pub fn eval_trivial(&mut self) {
        self.evals += 1;
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// distinct things observed (paths reached, states seen)
    pub fn saw(&mut self, k: &'static str, what: &[u8]) {
        self.sets.push((k, hash64(what)));
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.samples.is_empty() && (self.idx % 97 == 3 || self.run.only.is_some()) {
            self.samples.push(v());
        }
    }
    pub fn fail(&mut self, sig: &str, mut detail: Value) {
        if let Some(o) = detail.as_object_mut() {
            o.insert("stream".into(), json!(self.stream));
            o.insert("case".into(), json!(self.idx));
            o.insert("seed".into(), json!(self.run.seed));
        }
        self.viol.push((sig.to_string(), detail));
    }
    pub fn failed(&self) -> bool {
        !self.viol.is_empty()
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { format!("{}…[{} chars]", s.chars().take(n).collect::<String>(), s.chars().count()) }
}

/// first difference between two JSON values, as a pointer and the two sides
pub fn json_diff(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{at}/{k}: missing (expected {})", clip(&v.to_string(), 200))),
                    Some(w) => {
                        if let Some(d) = json_diff(v, w, &format!("{at}/{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            for (k, v) in y {
                if !x.contains_key(k) {
                    return Some(format!("{at}/{k}: unexpected ({})", clip(&v.to_string(), 200)));
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{at}: {} items expected, {} found", x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (v, w))| json_diff(v, w, &format!("{at}[{i}]")))
        }
        _ => {
            if a == b {
                None
            } else if (a.is_i64() || a.is_u64()) && (b.is_i64() || b.is_u64()) {
                Some(format!("{at}: expected {a}, found {b}"))
            } else if let (Some(x), Some(y)) = (a.as_f64(), b.as_f64()) {
                if x == y { None } else { Some(format!("{at}: expected {a}, found {b}")) }
            } else {
                Some(format!("{at}: expected {}, found {}", clip(&a.to_string(), 300), clip(&b.to_string(), 300)))
            }
        }
    }
}

pub fn evidence(run: &Run, wall: f64, violations: u64) -> Value {
    let st = run.st.lock().unwrap();
    let mut cov = Map::new();
    cov.insert("evaluations".into(), json!(st.evaluations));
    cov.insert("distinct_nontrivial".into(), json!(st.distinct.len()));
    cov.insert("rule".into(), json!(st.rules.join(" | ")));
    cov.insert("samples".into(), json!(st.samples));
    cov.insert("observed".into(), json!(st.counters));
    let sets: BTreeMap<_, _> = st.sets.iter().map(|(k, v)| (k.clone(), v.len())).collect();
    cov.insert("distinct_observed".into(), json!(sets));
    cov.insert("known_findings_seen".into(), json!(st.known_hit));
    cov.insert("source_dictionary_tokens".into(), json!(run.dict.describe()));
    json!({
        "property": run.prop, "tier": if run.tier == Tier::Quick {"quick"} else {"thorough"}, "seed": run.seed,
        "level": "exploration", "coverage": cov, "wall_s": wall, "violations": violations,
        "assumptions": ["reference schema /verif/schema/schema.json (extracted once from the pinned commit, audited)", "debug build with overflow checks and debug assertions"],
    })
}
