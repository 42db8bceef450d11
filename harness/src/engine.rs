//! Property-based testing engine.
//!
//! A case is generated by drawing bounded integers from a `Gen`. Every draw is recorded on
//! a tape, so that a case is replayed from its tape and shrunk by editing the tape (as in
//! Hypothesis): deleting spans and lowering values, and re-running the generator on the
//! result. Draws past the end of a tape return 0, the simplest choice.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use ff::{Field, PrimeField};
use rand::{RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;

pub type R = Result<(), String>;
pub type CheckFn = fn(&mut Cx) -> R;

pub struct Cx {
    rng: ChaCha8Rng,
    tape: Vec<u64>,
    pos: usize,
    replaying: bool,
    pub threads: usize,
    pub nontrivial: bool,
    pub evals: u64,
    pub labels: BTreeMap<String, u64>,
    pub sample: Option<String>,
    pub finding: Option<String>,
    pub tier_thorough: bool,
}

impl Cx {
    fn new(seed: u64, tape: Option<Vec<u64>>, thorough: bool) -> Self {
        Cx {
            rng: ChaCha8Rng::seed_from_u64(seed),
            replaying: tape.is_some(),
            tape: tape.unwrap_or_default(),
            pos: 0,
            threads: 1,
            nontrivial: false,
            evals: 0,
            labels: BTreeMap::new(),
            sample: None,
            finding: None,
            tier_thorough: thorough,
        }
    }

    /// Uniform draw from `0..bound` (bound >= 1).
    pub fn below(&mut self, bound: u64) -> u64 {
        assert!(bound >= 1, "HARNESS: empty bound");
        let v = if self.replaying {
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            if v >= bound {
                v % bound
            } else {
                v
            }
        } else {
            let v = if bound == 1 { 0 } else { (((self.rng.next_u64() as u128) * (bound as u128)) >> 64) as u64 };
            self.tape.push(v);
            v
        };
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn usize(&mut self, lo: usize, hi_incl: usize) -> usize {
        assert!(lo <= hi_incl, "HARNESS: bad range");
        lo + self.below((hi_incl - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        assert!(!xs.is_empty(), "HARNESS: pick from empty");
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Index chosen with the given weights; shrinks towards index 0.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let tot: u64 = ws.iter().sum();
        let mut x = self.below(tot);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // shrinks to the identity permutation
            let j = i - self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
    /// Deterministic random generator seeded by one draw.
    pub fn rng(&mut self) -> ChaCha8Rng {
        let s = self.below(1 << 32);
        ChaCha8Rng::seed_from_u64(s)
    }
    /// Field element: biased to structured values.
    pub fn field<F: PrimeField>(&mut self) -> F {
        match self.weighted(&[4, 2, 2, 6, 1, 1]) {
            0 => F::from(self.below(4)),
            1 => -F::from(self.below(4)),
            2 => F::from(self.below(1 << 16)),
            3 => F::random(self.rng()),
            4 => {
                // power of two
                let e = self.below(F::NUM_BITS as u64);
                F::from(2).pow_vartime([e])
            }
            _ => {
                // root of unity power
                let e = self.below(1 << 12);
                F::ROOT_OF_UNITY.pow_vartime([e << 16])
            }
        }
    }
    pub fn nz_field<F: PrimeField>(&mut self) -> F {
        let f: F = self.field();
        if bool::from(f.is_zero()) {
            F::ONE
        } else {
            f
        }
    }
    pub fn rand_field<F: Field>(&mut self) -> F {
        F::random(self.rng())
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.rng().fill_bytes(&mut v);
        v
    }

    pub fn label(&mut self, s: impl Into<String>) {
        *self.labels.entry(s.into()).or_default() += 1;
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(s());
        }
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
}

/// `ensure!(cond, "fmt", args)` — a failed oracle comparison.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

pub struct Sub {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: CheckFn,
}
pub fn sub(name: &'static str, quick: usize, thorough: usize, f: CheckFn) -> Sub {
    Sub { name, quick, thorough, f }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

lazy_static::lazy_static! {
    static ref PANIC_INFO: Mutex<HashMap<String, String>> = Mutex::new(HashMap::new());
}
static VERBOSE: AtomicBool = AtomicBool::new(false);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if let Ok(mut m) = PANIC_INFO.lock() {
            if m.len() > 10_000 {
                m.clear();
            }
            m.insert(msg.clone(), loc.clone());
        }
        if VERBOSE.load(Ordering::Relaxed) {
            eprintln!("panic at {}: {}", loc, msg);
        }
    }));
}

pub fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_string()
    }
}
pub fn panic_loc(msg: &str) -> String {
    PANIC_INFO.lock().ok().and_then(|m| m.get(msg).cloned()).unwrap_or_default()
}

/// Runs `f`, turning a panic into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let m = payload_str(&*p);
        let l = panic_loc(&m);
        format!("panic: {} [{}]", m, l)
    })
}

const THREADS: [usize; 10] = [1, 1, 1, 1, 1, 1, 2, 3, 5, 8];

thread_local! {
    static POOLS: RefCell<HashMap<usize, Arc<rayon::ThreadPool>>> = RefCell::new(HashMap::new());
}
pub fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    POOLS.with(|p| {
        p.borrow_mut()
            .entry(n)
            .or_insert_with(|| {
                Arc::new(
                    rayon::ThreadPoolBuilder::new()
                        .num_threads(n)
                        .stack_size(64 << 20)
                        .build()
                        .expect("HARNESS: pool"),
                )
            })
            .clone()
    })
}

enum Out {
    Pass,
    Fail(String),
    Known(String),
    Harness(String),
}

struct Ran {
    out: Out,
    cx: Cx,
}

fn run_case(f: CheckFn, seed: u64, tape: Option<Vec<u64>>, thorough: bool) -> Ran {
    let mut cx = Cx::new(seed, tape, thorough);
    let t = THREADS[cx.below(THREADS.len() as u64) as usize];
    cx.threads = t;
    let pool = pool(t);
    let r = catch_unwind(AssertUnwindSafe(|| pool.install(|| f(&mut cx))));
    let out = match r {
        Ok(Ok(())) => Out::Pass,
        Ok(Err(m)) => {
            if m.starts_with("HARNESS:") {
                Out::Harness(m)
            } else if let Some(k) = cx.finding.clone() {
                if known(&k) {
                    Out::Known(k)
                } else {
                    Out::Fail(m)
                }
            } else {
                Out::Fail(m)
            }
        }
        Err(p) => {
            let m = payload_str(&*p);
            let l = panic_loc(&m);
            if m.starts_with("HARNESS:") || m.contains("tape generator") {
                Out::Harness(m)
            } else {
                Out::Fail(format!("panic: {} [{}]", m, l))
            }
        }
    };
    cx.tape.truncate(cx.pos.max(0));
    Ran { out, cx }
}

lazy_static::lazy_static! {
    static ref KNOWN: HashSet<String> = {
        let mut s = HashSet::new();
        let p = verif_dir().join("known_findings.jsonl");
        if let Ok(t) = std::fs::read_to_string(p) {
            for l in t.lines() {
                if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
                    if v["status"] == "known" {
                        if let Some(k) = v["key"].as_str() { s.insert(k.to_string()); }
                    }
                }
            }
        }
        s
    };
}
fn known(k: &str) -> bool {
    KNOWN.contains(k)
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = blake2b_simd::Params::new().hash_length(8).to_state();
    for p in parts {
        h.update(&p.to_le_bytes());
    }
    let mut b = [0u8; 8];
    b.copy_from_slice(h.finalize().as_bytes());
    u64::from_le_bytes(b)
}
fn hash_str(s: &str) -> u64 {
    let h = blake2b_simd::Params::new().hash_length(8).hash(s.as_bytes());
    let mut b = [0u8; 8];
    b.copy_from_slice(h.as_bytes());
    u64::from_le_bytes(b)
}

struct Agg {
    evaluations: u64,
    cases: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
    labels: BTreeMap<String, BTreeMap<String, u64>>,
    per_sub: BTreeMap<String, (u64, u64)>,
    known: BTreeMap<String, u64>,
    failure: Option<(usize, Vec<u64>, String)>,
    harness: Option<String>,
}

pub fn run_prop(prop: &Prop, seed: u64, tier: &str, only_sub: Option<&str>, scale: f64) -> i32 {
    install_hook();
    let start = Instant::now();
    let thorough = tier == "thorough";
    let budget = Duration::from_secs(if thorough { 3600 * 6 } else { 870 });
    {
        // Watchdog: a hang is an error of the run, never a violation.
        let id = prop.id;
        std::thread::spawn(move || {
            std::thread::sleep(budget);
            println!("ERROR property={} watchdog expired", id);
            std::process::exit(3);
        });
    }
    // Interleave the jobs of all sub-checks so that a failure in any is met early.
    let mut jobs: Vec<(u64, usize, usize)> = vec![];
    for (si, s) in prop.subs.iter().enumerate() {
        if let Some(o) = only_sub {
            if o != s.name {
                continue;
            }
        }
        let n = if thorough { s.thorough } else { s.quick };
        let n = ((n as f64 * scale).ceil()) as usize;
        for i in 0..n {
            jobs.push(((i as u64 * 1_000_000) / n as u64, si, i));
        }
    }
    jobs.sort();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg {
        evaluations: 0,
        cases: 0,
        nontrivial: HashSet::new(),
        samples: vec![],
        labels: BTreeMap::new(),
        per_sub: BTreeMap::new(),
        known: BTreeMap::new(),
        failure: None,
        harness: None,
    });
    let workers = std::env::var("VERIF_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8usize);
    let pid = hash_str(prop.id);
    std::thread::scope(|sc| {
        for _ in 0..workers {
            sc.spawn(|| loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let j = next.fetch_add(1, Ordering::Relaxed);
                if j >= jobs.len() {
                    break;
                }
                let (_, si, i) = jobs[j];
                let s = &prop.subs[si];
                let cs = hash64(&[seed, pid, hash_str(s.name), i as u64]);
                let ran = run_case(s.f, cs, None, thorough);
                let mut a = agg.lock().unwrap();
                a.cases += 1;
                a.evaluations += ran.cx.evals.max(1);
                let e = a.per_sub.entry(s.name.to_string()).or_default();
                e.0 += 1;
                if ran.cx.nontrivial {
                    e.1 += 1;
                    let mut parts = vec![hash_str(s.name)];
                    parts.extend_from_slice(&ran.cx.tape);
                    a.nontrivial.insert(hash64(&parts));
                }
                for (k, v) in &ran.cx.labels {
                    *a.labels.entry(s.name.to_string()).or_default().entry(k.clone()).or_default() += v;
                }
                if let Some(smp) = ran.cx.sample.clone() {
                    let cnt = a.samples.iter().filter(|x| x.starts_with(s.name)).count();
                    if cnt < 2 && ran.cx.nontrivial {
                        a.samples.push(format!("{}: {}", s.name, smp));
                    }
                }
                match ran.out {
                    Out::Pass => {}
                    Out::Known(k) => {
                        *a.known.entry(k).or_default() += 1;
                    }
                    Out::Harness(m) => {
                        a.harness = Some(format!("{} (sub {} case {})", m, s.name, i));
                        stop.store(true, Ordering::Relaxed);
                    }
                    Out::Fail(m) => {
                        if a.failure.is_none() {
                            a.failure = Some((si, ran.cx.tape, m));
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    let agg = agg.into_inner().unwrap();
    let mut code = 0;
    let mut violations = 0;
    if let Some(h) = &agg.harness {
        println!("ERROR property={} {}", prop.id, h);
        code = 2;
    }
    for (k, n) in &agg.known {
        println!("KNOWN-FINDING: property={} {} ({} cases)", prop.id, k, n);
    }
    if let Some((si, tape, msg)) = &agg.failure {
        violations = 1;
        code = 1;
        let s = &prop.subs[*si];
        let shrink_budget = Duration::from_secs(60);
        let (tape, msg) = shrink(s.f, tape.clone(), msg.clone(), thorough, shrink_budget);
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let mut key = vec![hash_str(s.name)];
        key.extend_from_slice(&tape);
        let path = dir.join(format!("{}-{}-{:016x}.json", prop.id, s.name, hash64(&key)));
        let v = serde_json::json!({
            "property": prop.id, "sub": s.name, "tape": tape, "message": msg, "seed": seed, "tier": tier,
            "how": format!("bash run.sh replay {}", path.display()),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("failure in {}: {}", s.name, msg);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    }
    let wall = start.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": prop.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg.evaluations,
            "cases": agg.cases,
            "distinct_nontrivial": agg.nontrivial.len(),
            "rule": prop.rule,
            "samples": agg.samples,
            "per_subcheck": agg.per_sub.iter().map(|(k,(n,t))| (k.clone(), serde_json::json!({"cases": n, "nontrivial": t}))).collect::<serde_json::Map<_,_>>(),
            "distribution": agg.labels,
            "known_findings_met": agg.known,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let edir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if only_sub.is_none() {
        std::fs::write(edir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap())
            .expect("HARNESS: cannot write evidence");
    }
    if code == 0 {
        println!(
            "OK property={} cases={} evaluations={} nontrivial={} wall={:.1}s",
            prop.id, agg.cases, agg.evaluations, agg.nontrivial.len(), wall
        );
    }
    if std::env::var("VERIF_STATS").is_ok() {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]).unwrap());
    }
    code
}

fn shrink(f: CheckFn, tape: Vec<u64>, msg: String, thorough: bool, budget: Duration) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut bmsg = msg;
    let mut tries = 0usize;
    let mut attempt = |cand: Vec<u64>| -> Option<(Vec<u64>, String)> {
        if t0.elapsed() > budget || tries > 3000 {
            return None;
        }
        tries += 1;
        let ran = run_case(f, 0, Some(cand.clone()), thorough);
        match ran.out {
            Out::Fail(m) => {
                let mut t = cand;
                t.truncate(ran.cx.pos);
                while t.last() == Some(&0) {
                    t.pop();
                }
                Some((t, m))
            }
            _ => None,
        }
    };
    loop {
        let mut improved = false;
        // delete spans
        let mut span = (best.len() / 2).max(1);
        while span >= 1 {
            let mut i = 0;
            while i + span <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + span);
                if let Some((t, m)) = attempt(c) {
                    if t.len() < best.len() {
                        best = t;
                        bmsg = m;
                        improved = true;
                        continue;
                    }
                }
                i += span;
            }
            if span == 1 {
                break;
            }
            span /= 2;
        }
        // zero, then lower values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [0, v / 2, v.saturating_sub(1)] {
                if i < best.len() && nv < best[i] {
                    let mut c = best.clone();
                    c[i] = nv;
                    if let Some((t, m)) = attempt(c) {
                        if t.len() < best.len() || (t.len() == best.len() && t < best) {
                            best = t;
                            bmsg = m;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved || t0.elapsed() > budget {
            break;
        }
    }
    (best, bmsg)
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    install_hook();
    VERBOSE.store(true, Ordering::Relaxed);
    let v: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(path).expect("HARNESS: read replay")).expect("HARNESS: parse");
    let id = v["property"].as_str().unwrap();
    let sname = v["sub"].as_str().unwrap();
    let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let p = props.iter().find(|p| p.id == id).expect("HARNESS: unknown property");
    let s = p.subs.iter().find(|s| s.name == sname).expect("HARNESS: unknown sub-check");
    let ran = run_case(s.f, 0, Some(tape), v["tier"] == "thorough");
    if let Some(s) = &ran.cx.sample {
        println!("case: {}", s);
    }
    match ran.out {
        Out::Fail(m) => {
            println!("failure in {}: {}", sname, m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        Out::Known(k) => {
            println!("KNOWN-FINDING: property={} {}", id, k);
            0
        }
        Out::Harness(m) => {
            println!("ERROR {}", m);
            2
        }
        Out::Pass => {
            println!("replay passes");
            0
        }
    }
}
