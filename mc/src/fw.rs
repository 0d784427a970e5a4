//! Exploration framework: case execution, violation collection, replay files, evidence.
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_quiet_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_msg(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

fn payload_msg(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_string()
    }
}

/// Runs `f`; a panic becomes an `Err` describing it.
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(m.unwrap_or_else(|| format!("panic: {}", payload_msg(&*p))))
        }
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a based hasher: stable between runs
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<String>,
    root: PathBuf,
    start: Instant,
    evals: AtomicU64,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    outcomes: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    sample_every: AtomicU64,
    extra: Mutex<BTreeMap<String, Value>>,
    violations: Mutex<Vec<(String, String, Value)>>,
    nviol: AtomicUsize,
    known: HashSet<String>,
    known_seen: Mutex<BTreeSet<String>>,
    rules: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    pub scratch: PathBuf,
}

const MAX_REPORTED: usize = 12;

impl Ctx {
    pub fn new(prop: &str, tier: Tier, only: Option<String>) -> Ctx {
        let root = PathBuf::from(
            std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()),
        );
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let mut known = HashSet::new();
        if let Ok(txt) = std::fs::read_to_string(root.join("known_findings.txt")) {
            for l in txt.lines() {
                if let Some(r) = l.strip_prefix(&format!("finding property={prop} case=")) {
                    let case = r.split(" :: ").next().unwrap_or(r).trim();
                    known.insert(case.to_string());
                }
            }
        }
        let shm = std::path::Path::new("/dev/shm");
        let probe = shm.join(format!("vpinmc-probe-{}", std::process::id()));
        let base = if std::fs::write(&probe, b"x").is_ok() { shm.to_path_buf() } else { std::env::temp_dir() };
        let _ = std::fs::remove_file(&probe);
        let scratch = base.join(format!("vpinmc-{prop}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&scratch);
        std::fs::create_dir_all(&scratch).expect("scratch dir");
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            only,
            root,
            start: Instant::now(),
            evals: 0.into(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            outcomes: Mutex::new(HashSet::new()),
            samples: Mutex::new(vec![]),
            sample_every: AtomicU64::new(1),
            extra: Mutex::new(BTreeMap::new()),
            violations: Mutex::new(vec![]),
            nviol: 0.into(),
            known,
            known_seen: Mutex::new(BTreeSet::new()),
            rules: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            scratch,
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// True when this case is selected (always, unless replaying one case).
    pub fn wants(&self, label: &str) -> bool {
        match &self.only {
            None => true,
            Some(o) => o == label,
        }
    }
    /// When replaying, batch explorations must fall back to single cases.
    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }
    pub fn too_many(&self) -> bool {
        self.nviol.load(Ordering::Relaxed) >= 200
    }
    pub fn violations_so_far(&self) -> usize {
        self.nviol.load(Ordering::Relaxed)
    }
    pub fn had_known(&self, labels: impl Iterator<Item = String>) -> bool {
        let mut l = labels;
        l.any(|x| self.known.contains(&x))
    }
    pub fn rule(&self, r: &str) {
        self.rules.lock().unwrap().push(r.to_string());
    }
    pub fn assume(&self, r: &str) {
        self.assumptions.lock().unwrap().push(r.to_string());
    }
    pub fn note(&self, k: &str, v: impl Into<Value>) {
        self.extra.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn add(&self, k: &str, n: u64) {
        let mut e = self.extra.lock().unwrap();
        let cur = e.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
        e.insert(k.to_string(), (cur + n).into());
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// Counts one executed case with an outcome fingerprint.
    pub fn ok(&self, label: &str, outcome: u64) {
        let n = self.evals.fetch_add(1, Ordering::Relaxed) + 1;
        self.outcomes.lock().unwrap().insert(outcome);
        let every = self.sample_every.load(Ordering::Relaxed);
        if n.is_multiple_of(every) {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 24 {
                s.push(label.to_string());
            } else {
                self.sample_every.store(every * 7 + 1, Ordering::Relaxed);
                let k = (n as usize / 7) % 24;
                s[k] = label.to_string();
            }
        }
    }
    /// Counts many executions with their distinct outcomes (micro-cases).
    pub fn bulk(&self, n: u64, outcomes: impl IntoIterator<Item = u64>) {
        self.evals.fetch_add(n, Ordering::Relaxed);
        self.outcomes.lock().unwrap().extend(outcomes);
    }
    pub fn add_states(&self, s: u64, t: u64) {
        self.states.fetch_add(s, Ordering::Relaxed);
        self.transitions.fetch_add(t, Ordering::Relaxed);
    }
    pub fn add_traces(&self, t: u64) {
        self.traces.fetch_add(t, Ordering::Relaxed);
    }
    /// Runs one case; a failing case is executed a second time to establish determinism.
    pub fn case(&self, label: &str, f: impl Fn() -> Result<u64, String>) -> bool {
        if !self.wants(label) {
            return true;
        }
        match guard(&f) {
            Ok(h) => {
                self.ok(label, h);
                true
            }
            Err(m) => {
                let again = guard(&f);
                match again {
                    Err(m2) => {
                        let msg = if m == m2 {
                            m
                        } else {
                            format!("{m}\n[second execution also failed, differently: {m2}]")
                        };
                        self.violation(label, &msg, Value::Null)
                    }
                    Ok(_) => self.violation(
                        label,
                        &format!("{m}\n[NON-DETERMINISTIC: second execution of the same case passed]"),
                        Value::Null,
                    ),
                }
                self.evals.fetch_add(1, Ordering::Relaxed);
                false
            }
        }
    }
    pub fn violation(&self, label: &str, msg: &str, data: Value) {
        if self.known.contains(label) {
            self.known_seen
                .lock()
                .unwrap()
                .insert(format!("{label} :: {}", first_line(msg)));
            return;
        }
        self.nviol.fetch_add(1, Ordering::Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 200 {
            v.push((label.to_string(), msg.to_string(), data));
        }
    }
    pub fn finish(&self, level: &str) -> i32 {
        let _ = std::fs::remove_dir_all(&self.scratch);
        let tier = if self.quick() { "quick" } else { "thorough" };
        let mut viols = self.violations.lock().unwrap().clone();
        viols.sort_by_key(|(l, _, _)| (l.len(), l.clone()));
        let nviol = self.nviol.load(Ordering::Relaxed);
        let distinct = self.outcomes.lock().unwrap().len() as u64;
        let evals = self.evals.load(Ordering::Relaxed);
        if self.only.is_none() {
            let mut cov = serde_json::Map::new();
            cov.insert("evaluations".into(), evals.into());
            cov.insert("distinct_nontrivial".into(), distinct.into());
            cov.insert("rule".into(), self.rules.lock().unwrap().join(" | ").into());
            let st = self.states.load(Ordering::Relaxed);
            if st > 0 || level == "model_checking" {
                cov.insert("states".into(), st.into());
                cov.insert(
                    "transitions".into(),
                    self.transitions.load(Ordering::Relaxed).into(),
                );
                cov.insert(
                    "traces_validated_against_impl".into(),
                    self.traces.load(Ordering::Relaxed).into(),
                );
            }
            cov.insert(
                "samples".into(),
                self.samples.lock().unwrap().clone().into(),
            );
            cov.insert("exhaustive".into(), true.into());
            for (k, v) in self.extra.lock().unwrap().iter() {
                cov.insert(k.clone(), v.clone());
            }
            let ev = json!({
                "property": self.prop, "tier": tier, "seed": self.seed, "level": level,
                "coverage": cov, "wall_s": self.elapsed(),
                "assumptions": self.assumptions.lock().unwrap().clone(),
                "violations": nviol,
            });
            let dir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let tmp = dir.join(format!(".{}.tmp", self.prop));
            std::fs::write(&tmp, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
            std::fs::rename(&tmp, dir.join(format!("{}.json", self.prop))).expect("evidence");
        }
        for k in self.known_seen.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        println!(
            "{} {}: {} executions, {} distinct outcomes, {} states, {} violations, {:.1}s",
            self.prop,
            tier,
            evals,
            distinct,
            self.states.load(Ordering::Relaxed),
            nviol,
            self.elapsed()
        );
        if viols.is_empty() {
            return 0;
        }
        let dir = self.root.join("replays").join(&self.prop);
        let _ = std::fs::create_dir_all(&dir);
        for (i, (label, msg, data)) in viols.iter().enumerate() {
            if i >= MAX_REPORTED && std::env::var("MC_ALL").is_err() {
                println!("... {} further violations not listed", nviol - i);
                break;
            }
            let path = dir.join(format!("{:03}.json", i));
            let rep = json!({
                "property": self.prop, "tier": tier, "case": label, "message": msg, "data": data,
                "replay": format!("/verif/check.sh {} {} --only '{}'", self.prop, tier, label.replace('\'', "'\\''")),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
            println!("VIOLATION property={} replay={}", self.prop, path.display());
            println!("  case: {label}");
            for l in msg.lines().take(12) {
                let l: String = l.chars().take(400).collect();
                println!("  {l}");
            }
        }
        1
    }
}

pub fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").chars().take(300).collect()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(64) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 64 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// Human readable first difference of two byte strings.
pub fn diff_bytes(exp: &[u8], got: &[u8]) -> String {
    let n = exp.iter().zip(got).take_while(|(a, b)| a == b).count();
    let lo = n.saturating_sub(16);
    format!(
        "lengths expected {} got {}; first difference at {}; expected ..{} got ..{}",
        exp.len(),
        got.len(),
        n,
        hex(&exp[lo..exp.len().min(n + 24)]),
        hex(&got[lo..got.len().min(n + 24)])
    )
}

/// Runs f on every element on plain threads (which, unlike rayon's workers, block while they wait).
pub fn on_threads<T: Sync>(items: &[T], f: impl Fn(&T) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(items.len().max(1));
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(s, || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let Some(x) = items.get(i) else { break };
                        f(x);
                    }
                })
                .unwrap();
        }
    });
}
