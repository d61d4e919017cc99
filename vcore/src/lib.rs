//! Shared machinery of the simulators: the seeded generator, the batch
//! runner, the minimiser, replay files, known findings and evidence.
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ PRNG

#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability p/1000
    pub fn chance(&mut self, p: u64) -> bool {
        self.below(1000) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.rotate_left(32) ^ 0x5851f42d4c957f2d;
    splitmix(&mut s) ^ splitmix(&mut s).rotate_left(17)
}

/// 64-bit FNV-1a with a final mix; used for event-log fingerprints only
#[derive(Clone)]
pub struct Hash64(pub u64);
impl Default for Hash64 {
    fn default() -> Self {
        Hash64(0xcbf29ce484222325)
    }
}
impl Hash64 {
    pub fn add(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
        self.0 = (self.0 ^ 0xff).wrapping_mul(0x100000001b3);
    }
    pub fn num(&mut self, n: u64) {
        self.add(&n.to_le_bytes())
    }
    pub fn get(&self) -> u64 {
        let mut x = self.0;
        splitmix(&mut x)
    }
}
pub fn hash_of(b: &[u8]) -> u64 {
    let mut h = Hash64::default();
    h.add(b);
    h.get()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn short(b: &[u8]) -> String {
    if b.len() <= 20 { hex(b) } else { format!("{}..({} bytes)", hex(&b[..12]), b.len()) }
}

// --------------------------------------------------------------- outcomes

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// (class, detail); the class identifies the violation while minimising
    pub violations: Vec<(String, String)>,
    /// occurrences of listed known findings: (key, what happened)
    pub known: Vec<(String, String)>,
    /// the machinery itself failed: neither a pass nor a violation
    pub harness_error: Option<String>,
    /// fingerprint of the whole event log
    pub log_hash: u64,
    /// fingerprint of the behaviour reached (coarser than the log)
    pub state_hash: u64,
    /// the run did what the property is about
    pub nontrivial: bool,
    pub counters: BTreeMap<String, u64>,
    pub sim_ns: u64,
    /// human readable event log
    pub log: Vec<String>,
}

impl Outcome {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn fail(&mut self, class: &str, detail: impl Into<String>) {
        self.violations.push((class.to_string(), detail.into()));
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Sim: Sync {
    type Plan: Serialize + DeserializeOwned + Clone + Send;
    type Worker;
    fn worker(&self) -> Result<Self::Worker, String>;
    /// the plan of run `idx`; `rng` is seeded from VERIF_SEED, the property and `idx`
    fn generate(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Self::Plan;
    fn run(&self, w: &mut Self::Worker, plan: &Self::Plan) -> Outcome;
    /// the same run with its random scheduling replaced by the explicit decisions it took
    fn concrete(&self, _w: &mut Self::Worker, plan: &Self::Plan) -> Self::Plan {
        plan.clone()
    }
    /// text describing how cases are made and what is non-trivial
    fn rule(&self) -> String;
    /// fault kinds and probes that should not stay at zero
    fn expected_counters(&self) -> Vec<&'static str> {
        vec![]
    }
    fn real_components(&self) -> Vec<&'static str>;
    fn stub_components(&self) -> Vec<&'static str>;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
}

pub struct Budget {
    pub runs: u64,
    pub wall: Duration,
}

pub struct Ctx {
    pub property: String,
    pub seed: u64,
    pub tier: Tier,
    pub root: PathBuf,
    pub workers: usize,
}

impl Ctx {
    pub fn from_env(property: &str) -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let workers = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
        });
        Ctx { property: property.into(), seed, tier, root, workers }
    }
    pub fn plan_rng(&self, idx: u64) -> Rng {
        Rng::new(mix(mix(self.seed, hash_of(self.property.as_bytes())), idx))
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub class: String,
    pub detail: String,
    pub log_hash: String,
    pub how: String,
    pub plan: Value,
    pub log: Vec<String>,
}

pub fn known_findings(root: &Path, property: &str) -> Vec<(String, String)> {
    // lines: "KNOWN-FINDING: property=<id> key=<key> <text>"  /  "fixed: ..."
    let Ok(t) = std::fs::read_to_string(root.join("known-findings.txt")) else { return vec![] };
    let pre = format!("KNOWN-FINDING: property={} key=", property);
    t.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .filter_map(|l| l.split_once(' '))
        .map(|(k, t)| (k.to_string(), t.to_string()))
        .collect()
}

// -------------------------------------------------------------- minimiser

/// Candidate simplifications of a plan, generic over its JSON form: drop
/// chunks of arrays, then simplify scalars.
fn paths(v: &Value, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    match v {
        Value::Array(a) => {
            out.push(at.clone());
            for (i, x) in a.iter().enumerate() {
                at.push(Step::I(i));
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(Step::K(k.clone()));
                paths(x, at, out);
                at.pop();
            }
        }
        _ => out.push(at.clone()),
    }
}
#[derive(Clone)]
enum Step {
    I(usize),
    K(String),
}
fn get_mut<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut c = v;
    for s in p {
        c = match s {
            Step::I(i) => c.get_mut(*i)?,
            Step::K(k) => c.get_mut(k.as_str())?,
        };
    }
    Some(c)
}

pub fn minimise(plan: Value, deadline: Instant, mut fails: impl FnMut(&Value) -> bool) -> (Value, u64) {
    let mut best = plan;
    let mut tried = 0;
    loop {
        let before = best.clone();
        // arrays, outermost first
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        ps.sort_by_key(|p| p.len());
        for p in &ps {
            let Some(Value::Array(a)) = get_mut(&mut best, p).cloned() else { continue };
            // arrays of small numbers inside are payload bytes: only try halving them
            let mut n = a.len();
            if n == 0 {
                continue;
            }
            let mut chunk = n;
            while chunk >= 1 {
                let mut i = 0;
                while i < n {
                    if Instant::now() > deadline {
                        return (best, tried);
                    }
                    let mut cand = best.clone();
                    let Some(Value::Array(ca)) = get_mut(&mut cand, p) else { break };
                    let hi = (i + chunk).min(ca.len());
                    if i >= hi {
                        break;
                    }
                    ca.drain(i..hi);
                    tried += 1;
                    if fails(&cand) {
                        best = cand;
                        n -= hi - i;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = if n == 0 { break } else { (chunk / 2).min(n).max(1) };
            }
        }
        // scalars
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for p in &ps {
            let Some(cur) = get_mut(&mut best, p).cloned() else { continue };
            let cands: Vec<Value> = match &cur {
                Value::Number(x) => match x.as_u64() {
                    Some(0) | None => vec![],
                    Some(x) => {
                        let mut c = vec![0, 1, x / 2, x - x / 10, x - 1];
                        c.retain(|y| *y < x);
                        c.dedup();
                        c.into_iter().map(|y| json!(y)).collect()
                    }
                },
                Value::Bool(true) => vec![json!(false)],
                Value::String(s) if s.len() > 1 && p.last().map(|l| matches!(l, Step::K(k) if k == "bytes")).unwrap_or(false) => {
                    vec![json!(""), json!(&s[..(s.len() / 4) * 2])]
                }
                _ => vec![],
            };
            for c in cands {
                if Instant::now() > deadline {
                    return (best, tried);
                }
                let mut cand = best.clone();
                match get_mut(&mut cand, p) {
                    Some(x) => *x = c,
                    None => continue,
                }
                tried += 1;
                if fails(&cand) {
                    best = cand;
                    break;
                }
            }
        }
        if best == before {
            return (best, tried);
        }
    }
}

// ------------------------------------------------------------ batch runner

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial_states: HashSet<u64>,
    logs: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    sim_ns: u128,
    samples: Vec<Value>,
    harness: Vec<(u64, String)>,
    redo: u64,
    redo_diverged: Vec<u64>,
    found: Option<(u64, String, String)>,
}

/// Runs the whole check of one property; returns the process exit code.
pub fn check<S: Sim>(ctx: &Ctx, sim: &S, budget: Budget) -> i32 {
    let t0 = Instant::now();
    println!(
        "property {} seed {} tier {:?} workers {} runs {}",
        ctx.property, ctx.seed, ctx.tier, ctx.workers, budget.runs
    );
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let stop = AtomicBool::new(false);
    let totals = Mutex::new(Totals::default());
    std::thread::scope(|s| {
        for _ in 0..ctx.workers {
            s.spawn(|| {
                let mut w = match sim.worker() {
                    Ok(w) => w,
                    Err(e) => {
                        totals.lock().unwrap().harness.push((0, e));
                        stop.store(true, Ordering::SeqCst);
                        return;
                    }
                };
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= budget.runs || i > stop_at.load(Ordering::SeqCst) || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    if t0.elapsed() > budget.wall {
                        break;
                    }
                    let mut rng = ctx.plan_rng(i);
                    let plan = sim.generate(&mut rng, i, ctx.tier);
                    let o = sim.run(&mut w, &plan);
                    // determinism: the same run again, on this or another worker
                    let again = if i % 64 == 5 && o.harness_error.is_none() { Some(sim.run(&mut w, &plan).log_hash) } else { None };
                    let mut t = totals.lock().unwrap();
                    t.runs += 1;
                    t.sim_ns += o.sim_ns as u128;
                    t.logs.insert(o.log_hash);
                    if o.nontrivial {
                        t.nontrivial_states.insert(o.state_hash);
                    }
                    for (k, v) in &o.counters {
                        *t.counters.entry(k.clone()).or_insert(0) += v;
                    }
                    for (k, d) in &o.known {
                        let e = t.known.entry(k.clone()).or_insert((0, d.clone()));
                        e.0 += 1;
                    }
                    if let Some(h) = again {
                        t.redo += 1;
                        if h != o.log_hash {
                            t.redo_diverged.push(i);
                        }
                    }
                    if o.nontrivial && t.samples.len() < 3 && i % 7 == 0 {
                        let p = serde_json::to_value(&plan).unwrap_or(Value::Null);
                        let mut log = o.log.clone();
                        log.truncate(25);
                        t.samples.push(json!({"run": i, "plan": abbreviate(&p), "log_head": log}));
                    }
                    if let Some(e) = o.harness_error {
                        t.harness.push((i, e));
                        if t.harness.len() > 3 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    } else if let Some((c, d)) = o.violations.first() {
                        if t.found.as_ref().map(|f| f.0 > i).unwrap_or(true) {
                            t.found = Some((i, c.clone(), d.clone()));
                            stop_at.fetch_min(i, Ordering::SeqCst);
                        }
                    }
                }
            });
        }
    });
    let t = totals.into_inner().unwrap();
    let mut code = 0;
    let mut violations = 0;
    let mut extra = json!({});
    if let Some((i, class, detail)) = &t.found {
        violations = 1;
        match report_violation(ctx, sim, *i, class, detail) {
            Ok(v) => {
                extra = v;
                code = 1;
            }
            Err(e) => {
                eprintln!("harness error while reporting: {}", e);
                code = 2;
            }
        }
    } else if !t.harness.is_empty() {
        for (i, e) in &t.harness {
            eprintln!("harness error in run {}: {}", i, e);
        }
        code = 2;
    }
    for i in &t.redo_diverged {
        eprintln!("warning: run {} did not repeat exactly", i);
    }
    let listed = known_findings(&ctx.root, &ctx.property);
    for (k, text) in &listed {
        let seen = t.known.get(k);
        println!("KNOWN-FINDING: property={} {} [{}]", ctx.property, text, match seen {
            Some((n, d)) => format!("seen in {} runs, e.g. {}", n, d),
            None => "not met in this run".into(),
        });
    }
    let wall = t0.elapsed().as_secs_f64();
    let zero: Vec<&str> =
        sim.expected_counters().into_iter().filter(|k| t.counters.get(*k).copied().unwrap_or(0) == 0).collect();
    let faults: BTreeMap<&String, &u64> = t.counters.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<&String, &u64> = t.counters.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let evidence = json!({
        "property": ctx.property,
        "tier": if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": ctx.seed,
        "level": sim.level(),
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial_states.len(),
            "rule": sim.rule(),
            "samples": t.samples,
            "simulated_runs": t.runs,
            "runs_per_hour": (t.runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "distinct_event_logs": t.logs.len(),
            "faults_injected": faults,
            "probes": probes,
            "probes_at_zero": zero,
            "real_code": sim.real_components(),
            "stubs": sim.stub_components(),
            "determinism": {"runs_repeated": t.redo, "diverged": t.redo_diverged},
            "known_findings_seen": t.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "violation": extra,
        },
        "assumptions": sim.assumptions(),
        "wall_s": wall,
        "violations": violations,
    });
    let dir = ctx.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", ctx.property)), serde_json::to_string_pretty(&evidence).unwrap()) {
        eprintln!("cannot write evidence: {}", e);
        code = if code == 1 { 1 } else { 2 };
    }
    println!(
        "{}: {} runs, {} distinct non-trivial, {:.1} simulated s, {:.1} wall s{}{}",
        ctx.property,
        t.runs,
        t.nontrivial_states.len(),
        t.sim_ns as f64 / 1e9,
        wall,
        if zero.is_empty() { String::new() } else { format!(", probes at zero: {:?}", zero) },
        if code == 0 { ", held" } else { "" }
    );
    code
}

fn abbreviate(v: &Value) -> Value {
    match v {
        Value::String(s) if s.len() > 80 => json!(format!("{}..({} chars)", &s[..s.char_indices().nth(60).map(|x| x.0).unwrap_or(0)], s.len())),
        Value::Array(a) => {
            let mut b: Vec<Value> = a.iter().take(12).map(abbreviate).collect();
            if a.len() > 12 {
                b.push(json!(format!("..{} more", a.len() - 12)));
            }
            Value::Array(b)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), abbreviate(v))).collect()),
        _ => v.clone(),
    }
}

fn report_violation<S: Sim>(ctx: &Ctx, sim: &S, i: u64, class: &str, detail: &str) -> Result<Value, String> {
    let mut w = sim.worker()?;
    let mut rng = ctx.plan_rng(i);
    let plan = sim.generate(&mut rng, i, ctx.tier);
    println!("run {} violates: [{}] {}", i, class, detail);
    let mut plan = plan;
    let c = sim.concrete(&mut w, &plan);
    if sim.run(&mut w, &c).violations.iter().any(|(x, _)| x == class) {
        plan = c;
    } else {
        eprintln!("warning: the explicit schedule does not reproduce; keeping the seeded one");
    }
    let value = serde_json::to_value(&plan).map_err(|e| e.to_string())?;
    let limit = if ctx.tier == Tier::Quick { 45 } else { 180 };
    let deadline = Instant::now() + Duration::from_secs(limit);
    let (small, tried) = minimise(value.clone(), deadline, |v| {
        let Ok(p) = serde_json::from_value::<S::Plan>(v.clone()) else { return false };
        let o = sim.run(&mut w, &p);
        o.harness_error.is_none() && o.violations.iter().any(|(c, _)| c == class)
    });
    let p: S::Plan = serde_json::from_value(small.clone()).map_err(|e| e.to_string())?;
    let o = sim.run(&mut w, &p);
    let (class, detail) =
        o.violations.iter().find(|(c, _)| c == class).cloned().unwrap_or((class.to_string(), detail.to_string()));
    let dir = ctx.root.join("build").join("replays");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let file = dir.join(format!("{}-seed{}-run{}.json", ctx.property, ctx.seed, i));
    let r = Replay {
        property: ctx.property.clone(),
        seed: ctx.seed,
        run: i,
        class: class.clone(),
        detail: detail.clone(),
        log_hash: format!("{:016x}", o.log_hash),
        how: format!("{}/check.sh replay {}", ctx.root.display(), file.display()),
        plan: small,
        log: o.log.clone(),
    };
    std::fs::write(&file, serde_json::to_string_pretty(&r).unwrap()).map_err(|e| e.to_string())?;
    // replay in a fresh process
    let fresh = std::env::current_exe().ok().and_then(|exe| {
        std::process::Command::new(exe).arg("replay").arg(&file).env("VERIF_ROOT", &ctx.root).output().ok()
    });
    let reproduced = match &fresh {
        Some(out) => String::from_utf8_lossy(&out.stdout).contains("REPRODUCED exactly"),
        None => false,
    };
    println!("minimised with {} runs; fresh-process replay: {}", tried, if reproduced { "reproduced exactly" } else { "NOT exact" });
    println!("what: [{}] {}", class, detail);
    println!("VIOLATION property={} replay={}", ctx.property, file.display());
    Ok(json!({"run": i, "class": class, "detail": detail, "replay": file, "minimiser_runs": tried, "fresh_process_replay_exact": reproduced}))
}

pub fn replay<S: Sim>(ctx: &Ctx, sim: &S, r: &Replay) -> i32 {
    let mut w = match sim.worker() {
        Ok(w) => w,
        Err(e) => {
            eprintln!("harness error: {}", e);
            return 2;
        }
    };
    let p: S::Plan = match serde_json::from_value(r.plan.clone()) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("bad plan: {}", e);
            return 2;
        }
    };
    let o = sim.run(&mut w, &p);
    for l in &o.log {
        println!("  {}", l);
    }
    if let Some(e) = &o.harness_error {
        eprintln!("harness error: {}", e);
        return 2;
    }
    for (c, d) in &o.violations {
        println!("violates: [{}] {}", c, d);
    }
    let same_class = o.violations.iter().any(|(c, _)| *c == r.class);
    let same_log = format!("{:016x}", o.log_hash) == r.log_hash;
    if same_class {
        println!("{}", if same_log { "REPRODUCED exactly" } else { "reproduced, event log differs" });
        println!("VIOLATION property={} replay=(this file)", ctx.property);
        1
    } else {
        println!("not reproduced: the property holds on this plan");
        0
    }
}

/// `selftest`: run many plans twice on fresh workers, in this process and
/// with another worker count, and compare the event logs.
pub fn determinism<S: Sim>(ctx: &Ctx, sim: &S, runs: u64) -> BTreeMap<u64, u64> {
    let next = AtomicU64::new(0);
    let out = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..ctx.workers {
            s.spawn(|| {
                let mut w = sim.worker().expect("worker");
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= runs {
                        break;
                    }
                    let mut rng = ctx.plan_rng(i);
                    let plan = sim.generate(&mut rng, i, ctx.tier);
                    let o = sim.run(&mut w, &plan);
                    out.lock().unwrap().insert(i, o.log_hash);
                }
            });
        }
    });
    out.into_inner().unwrap()
}

pub fn set_of<T: Ord>(v: Vec<T>) -> BTreeSet<T> {
    v.into_iter().collect()
}
