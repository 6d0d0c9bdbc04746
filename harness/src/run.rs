//! Campaign runner: seeded proptest over threads, shrinking, replay files, evidence.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::{Debug, Write as _};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// What one evaluated case turned out to be.
#[derive(Default, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}
impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info { nontrivial, classes: vec![] }
    }
    pub fn c(mut self, cond: bool, name: &'static str) -> Self {
        if cond {
            self.classes.push(name);
        }
        self
    }
}
pub type Res = Result<Info, String>;

pub enum Mode {
    Explore,
    Replay { sub: String, case: serde_json::Value },
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub mode: Mode,
    pub root: String,
    pub threads: usize,
    pub start: Instant,
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub subs: Vec<serde_json::Value>,
    pub violations: Vec<(String, String)>,
    pub rule: Vec<String>,
    pub assumptions: Vec<String>,
    pub exhaustive: Vec<String>,
    pub replayed: Option<Result<(), String>>,
    pub regressions: usize,
}

struct HashW(u64);
impl std::fmt::Write for HashW {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}
pub fn hash_dbg<T: Debug>(t: &T) -> u64 {
    let mut h = HashW(0xcbf29ce484222325);
    let _ = write!(h, "{:?}", t);
    h.0
}

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x7F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// the case a worker thread is evaluating: since when, where it is, how to serialise it
type Running = Option<(Instant, *const (), fn(*const ()) -> serde_json::Value)>;
pub struct Slot(Mutex<Running>);
// SAFETY: the pointer is only followed under the lock, and the worker empties the slot before the
// case it points to goes away; the case itself is never written while it is evaluated.
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
/// property, part, root directory, seed
pub static CURRENT: Mutex<(String, String, String, u64)> = Mutex::new((String::new(), String::new(), String::new(), 0));
/// a single case takes milliseconds; one that takes this long hangs
pub const CASE_LIMIT_S: u64 = 60;

thread_local! {
    static MY_SLOT: (Arc<Slot>, Option<String>) = {
        let s = Arc::new(Slot(Mutex::new(None)));
        let mut g = SLOTS.lock().unwrap();
        g.push(s.clone());
        (s, std::env::var("VH_TRACE").ok().map(|d| format!("{}/{}.json", d, g.len())))
    };
}
fn to_value<T: Serialize>(p: *const ()) -> serde_json::Value {
    serde_json::to_value(unsafe { &*(p as *const T) }).unwrap_or_default()
}
fn case_file(msg: &str, case: &serde_json::Value) -> serde_json::Value {
    let (prop, sub, root, seed) = CURRENT.lock().unwrap().clone();
    serde_json::json!({"property": prop, "sub": sub, "message": msg, "seed": seed,
        "how_to_replay": format!("bash {}/check.sh replay FILE", root), "case": case})
}
pub fn replay_path(root: &str, prop: &str, sub: &str) -> String {
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    format!("{}/{}-{}.json", dir, prop, sub.replace(|c: char| !c.is_alphanumeric(), "_"))
}
/// A case that is still being evaluated after `CASE_LIMIT_S` seconds, as the content of a replay file.
pub fn hanging() -> Option<serde_json::Value> {
    for s in SLOTS.lock().unwrap().iter() {
        let g = s.0.lock().unwrap();
        if let Some((t, p, f)) = &*g {
            if t.elapsed().as_secs() >= CASE_LIMIT_S {
                return Some(case_file(&format!("no return within {} s", CASE_LIMIT_S), &f(*p)));
            }
        }
    }
    None
}

pub fn guarded<T: Serialize>(t: &T, f: &(dyn Fn(&T) -> Res + Sync)) -> Res {
    let slot = MY_SLOT.with(|s| {
        if let Some(path) = &s.1 {
            let _ = std::fs::write(path, case_file("the process was killed by a signal", &to_value::<T>(t as *const T as *const ())).to_string());
        }
        s.0.clone()
    });
    *slot.0.lock().unwrap() = Some((Instant::now(), t as *const T as *const (), to_value::<T>));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(t)));
    *slot.0.lock().unwrap() = None;
    match r {
        Ok(r) => r,
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            Err(format!("panic: {}", m))
        }
    }
}

#[derive(Default)]
struct Tally {
    evals: u64,
    nontriv: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}
impl Tally {
    fn note<T: Debug + Serialize>(&mut self, v: &T, info: &Info) {
        self.evals += 1;
        if info.nontrivial {
            let fresh = self.nontriv.insert(hash_dbg(v));
            let k = self.nontriv.len();
            if fresh && (k == 3 || k == 50) {
                self.samples.push(serde_json::to_value(v).unwrap_or_default());
            }
        }
        for c in &info.classes {
            *self.classes.entry(c.to_string()).or_insert(0) += 1;
        }
    }
}

impl Ctx {
    pub fn rule(&mut self, s: &str) {
        self.rule.push(s.to_string());
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    fn absorb(&mut self, sub: &str, ts: Vec<Tally>, t0: Instant) {
        let mut ev = 0;
        let mut nt = 0;
        let before = self.nontrivial.len();
        let subh = hash_dbg(&sub);
        let mut nsamples = 0;
        for t in ts {
            ev += t.evals;
            for h in t.nontriv {
                self.nontrivial.insert(h ^ subh);
            }
            for (k, v) in t.classes {
                *self.classes.entry(format!("{}: {}", sub, k)).or_insert(0) += v;
            }
            for s in t.samples {
                if nsamples < 2 {
                    nsamples += 1;
                    self.samples.push(serde_json::json!({"sub": sub, "case": abridge(s)}));
                }
            }
        }
        nt += self.nontrivial.len() - before;
        self.evals += ev;
        self.subs.push(serde_json::json!({"sub": sub, "evaluations": ev, "distinct_nontrivial": nt,
            "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0}));
    }

    /// Random search: `quick`/`thorough` cases in total, spread over the threads.
    pub fn prop<V, S>(
        &mut self,
        sub: &str,
        quick: u32,
        thorough: u32,
        strat: impl Fn() -> S + Sync,
        test: impl Fn(&V) -> Res + Sync,
    ) where
        V: Debug + Clone + Serialize + DeserializeOwned + Send,
        S: Strategy<Value = V>,
    {
        if self.try_replay(sub, &test) {
            return;
        }
        // after a violation the verdict is known
        if matches!(self.mode, Mode::Replay { .. }) || !self.violations.is_empty() {
            return;
        }
        let t0 = Instant::now();
        let total = if self.thorough { thorough } else { quick };
        let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let total = ((total as f64) * scale) as u32;
        let per = (total as usize).div_ceil(self.threads).max(1) as u32;
        let base = mix(mix(self.seed, hash_dbg(&self.prop)), hash_dbg(&sub));
        let fails: Mutex<Vec<(usize, String, V)>> = Mutex::new(vec![]);
        let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
        let tallies: Mutex<Vec<(usize, Tally)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for th in 0..self.threads {
                let (strat, test, fails, errors, tallies) = (&strat, &test, &fails, &errors, &tallies);
                std::thread::Builder::new()
                    .stack_size(128 << 20)
                    .spawn_scoped(sc, move || {
                        let cfg = Config {
                            cases: per,
                            failure_persistence: None,
                            max_shrink_iters: 30_000,
                            max_shrink_time: 40_000,
                            max_local_rejects: 1_000_000,
                            max_global_rejects: 1_000_000,
                            rng_algorithm: RngAlgorithm::ChaCha,
                            rng_seed: RngSeed::Fixed(mix(base, th as u64 + 1)),
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new(cfg);
                        let tally = std::cell::RefCell::new(Tally::default());
                        let failing = std::cell::Cell::new(false);
                        let r = runner.run(&strat(), |v| match guarded(&v, test) {
                            Ok(info) => {
                                if !failing.get() {
                                    tally.borrow_mut().note(&v, &info);
                                }
                                Ok(())
                            }
                            Err(m) => {
                                if !failing.replace(true) {
                                    tally.borrow_mut().evals += 1;
                                }
                                Err(TestCaseError::fail(m))
                            }
                        });
                        match r {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, v)) => {
                                fails.lock().unwrap().push((th, reason.message().to_string(), v))
                            }
                            Err(TestError::Abort(reason)) => {
                                errors.lock().unwrap().push(reason.message().to_string())
                            }
                        }
                        tallies.lock().unwrap().push((th, tally.into_inner()));
                    })
                    .unwrap();
            }
        });
        let errs = errors.into_inner().unwrap();
        if !errs.is_empty() {
            eprintln!("generator aborted in {}: {:?}", sub, errs);
            std::process::exit(2);
        }
        let mut ts = tallies.into_inner().unwrap();
        ts.sort_by_key(|t| t.0);
        self.absorb(sub, ts.into_iter().map(|t| t.1).collect(), t0);
        let mut f = fails.into_inner().unwrap();
        // the smallest failure is the one reported
        f.sort_by_key(|x| (serde_json::to_string(&x.2).map(|s| s.len()).unwrap_or(0), x.0));
        if let Some((_, _, v)) = f.into_iter().next() {
            let m = guarded(&v, &test).err().unwrap_or_else(|| "not reproduced on second run".into());
            self.violation(sub, &m, &v);
        }
    }

    /// Complete enumeration of a finite space (given smallest cases first).
    pub fn enumerate<V>(
        &mut self,
        sub: &str,
        what: &str,
        cases: impl Iterator<Item = V> + Send,
        test: impl Fn(&V) -> Res + Sync,
    ) where
        V: Debug + Clone + Serialize + DeserializeOwned + Send + Sync,
    {
        if self.try_replay(sub, &test) {
            return;
        }
        // after a violation the verdict is known
        if matches!(self.mode, Mode::Replay { .. }) || !self.violations.is_empty() {
            return;
        }
        let t0 = Instant::now();
        let it = Mutex::new(cases.enumerate());
        let first: Mutex<Option<(usize, String, V)>> = Mutex::new(None);
        let tallies: Mutex<Vec<Tally>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for _ in 0..self.threads {
                let (it, first, tallies, test) = (&it, &first, &tallies, &test);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut t = Tally::default();
                        loop {
                            let batch: Vec<(usize, V)> = {
                                let mut g = it.lock().unwrap();
                                let mut b = Vec::with_capacity(256);
                                for _ in 0..256 {
                                    match g.next() {
                                        Some(x) => b.push(x),
                                        None => break,
                                    }
                                }
                                b
                            };
                            if batch.is_empty() {
                                break;
                            }
                            for (i, v) in batch {
                                match guarded(&v, test) {
                                    Ok(info) => t.note(&v, &info),
                                    Err(m) => {
                                        t.evals += 1;
                                        let mut f = first.lock().unwrap();
                                        if f.as_ref().map_or(true, |x| x.0 > i) {
                                            *f = Some((i, m, v));
                                        }
                                    }
                                }
                            }
                        }
                        tallies.lock().unwrap().push(t);
                    })
                    .unwrap();
            }
        });
        self.absorb(sub, tallies.into_inner().unwrap(), t0);
        self.exhaustive.push(format!("{}: {}", sub, what));
        if let Some((_, m, v)) = first.into_inner().unwrap() {
            self.violation(sub, &m, &v);
        }
    }

    fn try_replay<V: Serialize + DeserializeOwned + Debug>(&mut self, sub: &str, test: &(dyn Fn(&V) -> Res + Sync)) -> bool {
        *CURRENT.lock().unwrap() = (self.prop.clone(), sub.to_string(), self.root.clone(), self.seed);
        let r = match &self.mode {
            Mode::Replay { sub: s, case } if s == sub => {
                let v: V = serde_json::from_value(case.clone()).expect("replay file does not fit this check");
                guarded(&v, test).map(|_| ())
            }
            _ => return false,
        };
        self.replayed = Some(r);
        true
    }

    pub fn violation<V: Serialize + Debug>(&mut self, sub: &str, msg: &str, v: &V) {
        let path = replay_path(&self.root, &self.prop, sub);
        let j = serde_json::json!({"property": self.prop, "sub": sub, "message": msg, "seed": self.seed,
            "how_to_replay": format!("bash {}/check.sh replay {}", self.root, path), "case": v});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        println!("failure in {} [{}]: {}", self.prop, sub, msg);
        println!("VIOLATION property={} replay={}", self.prop, path);
        self.violations.push((sub.to_string(), path));
    }

    pub fn evidence(&self, level: &str) {
        let cov = serde_json::json!({
            "evaluations": self.evals,
            "distinct_nontrivial": self.nontrivial.len(),
            "rule": self.rule.join(" | "),
            "samples": self.samples,
            "campaigns": self.subs,
            "classes": self.classes,
            "enumerated_completely": self.exhaustive,
            "saved_cases_replayed": self.regressions,
        });
        let e = serde_json::json!({
            "property": self.prop,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": (self.start.elapsed().as_millis() as f64) / 1000.0,
            "violations": self.violations.len(),
        });
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}.json", dir, self.prop), serde_json::to_string_pretty(&e).unwrap())
            .expect("cannot write evidence");
    }
}

/// long arrays cut short: samples are for reading
fn abridge(v: serde_json::Value) -> serde_json::Value {
    use serde_json::Value as V;
    match v {
        V::Array(a) => {
            let n = a.len();
            let mut o: Vec<V> = a.into_iter().take(if n > 40 { 12 } else { n }).map(abridge).collect();
            if n > 40 {
                o.push(V::String(format!("... {} entries in all", n)));
            }
            V::Array(o)
        }
        V::Object(m) => V::Object(m.into_iter().map(|(k, v)| (k, abridge(v))).collect()),
        v => v,
    }
}
