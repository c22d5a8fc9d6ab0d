//! Plans, runs, minimisation, replay and the multi-process coordinator.
use super::prng::{Prng, hash_bytes, mix};
use super::seams;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// One simulated run, completely: configuration plus the sequence of events (operations, faults,
/// clock moves, shocks). Executing a plan is a pure function of the plan and the code.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub scenario: String,
    pub cfg: Value,
    pub events: Vec<Value>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type Outcome = Result<(), Violation>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::core::engine::Violation { class: $class.to_string(), msg: format!($($arg)*) });
        }
    };
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    /// violation class, exact
    pub class: String,
    /// the violation message must contain this text (names the input / call site / history)
    pub contains: String,
    pub what: String,
}

/// Measured during a run.
#[derive(Default)]
pub struct Ctx {
    pub prop: String,
    pub counters: BTreeMap<String, u64>,
    pub sim_days: f64,
    /// abstract states reached (fingerprints)
    pub states: BTreeSet<u64>,
    /// fingerprint of this run's event/fault sequence; 0 = trivial run
    pub trace: u64,
    pub nontrivial: bool,
    pub known: Vec<Known>,
    pub known_hit: BTreeSet<String>,
    pub log: Vec<String>,
    pub keep_log: bool,
}

impl Ctx {
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn state(&mut self, s: &str) {
        self.states.insert(hash_bytes(s.as_bytes()));
    }
    /// record an observation in the event log (deterministic text) and in the trace hash
    pub fn ev(&mut self, s: &str) {
        self.trace = mix(self.trace, hash_bytes(s.as_bytes()));
        if self.keep_log {
            self.log.push(s.to_string());
        }
    }
    pub fn obs(&mut self, tag: &str, v: f64) {
        self.trace = mix(self.trace, v.to_bits());
        if self.keep_log {
            self.log.push(format!("{tag} {:016x} {v:e}", v.to_bits()));
        }
    }
    /// A violation: if it is a listed known finding, note it and continue, else return it.
    pub fn report(&mut self, class: &str, msg: String) -> Outcome {
        for k in &self.known {
            if k.property == self.prop && k.class == class && msg.contains(&k.contains) {
                self.known_hit.insert(k.what.clone());
                return Ok(());
            }
        }
        fail(class, msg)
    }
}

pub trait Property: Sync {
    fn id(&self) -> &'static str;
    /// number of runs for a tier
    fn runs(&self, thorough: bool) -> u64;
    fn generate(&self, r: &mut Prng, idx: u64, thorough: bool) -> Plan;
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome;
    /// smaller variants of a plan beyond dropping events (the engine already tries those)
    fn simplify(&self, _plan: &Plan) -> Vec<Plan> {
        vec![]
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str;
    /// components that ran real code / stubs
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]);
    fn assumptions(&self) -> &'static [&'static str] {
        &[]
    }
    /// seconds after which a single run counts as not terminating
    fn hang_secs(&self) -> u64 {
        90
    }
    /// class given to a run that kills the process or does not return
    fn crash_is_violation(&self) -> bool {
        true
    }
}

pub fn run_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_bytes(id.as_bytes())), idx)
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static IN_SUT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{m} at {loc}")));
    }));
}

/// Call into the library; a panic becomes Err(message).
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|c| c.set(c.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(c.get() - 1));
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Call into the library where a panic is a violation.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    sut(f).map_err(|m| Violation { class: "panic".into(), msg: format!("{what}: panicked: {}", strip_loc(&m)) })
}

fn strip_loc(m: &str) -> String {
    m.chars().take(300).collect()
}

fn new_ctx(p: &dyn Property, known: &[Known]) -> Ctx {
    Ctx { prop: p.id().to_string(), known: known.to_vec(), ..Default::default() }
}

/// Execute one plan in this process. A panic outside `sut` is an error of the harness.
pub fn exec(p: &dyn Property, plan: &Plan, ctx: &mut Ctx) -> Result<Outcome, String> {
    seams::set_clock(1_700_000_000);
    seams::set_entropy(7);
    super::faults::disarm();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.execute(plan, ctx)));
    super::faults::disarm();
    rand_chacha::sim::remove();
    match r {
        Ok(o) => Ok(o),
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // A panic that unwound out of library code called outside `sut`
            if m.contains("/repo/src") || m.contains("repo/src/") {
                Ok(Err(Violation { class: "panic".into(), msg: format!("library panicked: {m}") }))
            } else {
                Err(format!("harness panic: {m}"))
            }
        }
    }
}

pub struct Paths {
    pub root: PathBuf,
}
impl Paths {
    pub fn known(&self) -> Vec<Known> {
        let p = self.root.join("known_findings.json");
        match std::fs::read_to_string(&p) {
            Ok(s) => {
                let v: Value = serde_json::from_str(&s).expect("known_findings.json");
                serde_json::from_value(v["known"].clone()).expect("known_findings.json: known")
            }
            Err(_) => vec![],
        }
    }
}

fn set_limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

// ------------------------------------------------------------------ worker process

pub fn worker(p: &dyn Property, thorough: bool, seed: u64, w: u64, n: u64, total: u64, out: &Path, root: &Path) -> i32 {
    set_limits();
    install_panic_hook();
    let known = Paths { root: root.to_path_buf() }.known();
    let mut agg = new_ctx(p, &known);
    let progress = std::fs::File::create(out.with_extension("progress")).unwrap();
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let (mut evals, mut digest) = (0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut violation = Value::Null;
    let mut idx = w;
    use std::os::unix::fs::FileExt;
    while idx < total {
        progress.write_all_at(&(idx + 1).to_le_bytes(), 0).unwrap();
        let mut r = Prng::new(run_seed(seed, p.id(), idx));
        let plan = p.generate(&mut r, idx, thorough);
        let mut ctx = new_ctx(p, &known);
        match exec(p, &plan, &mut ctx) {
            Err(m) => {
                eprintln!("harness error in {} run {idx}: {m}", p.id());
                std::fs::write(out.with_extension("badplan"), serde_json::to_string(&plan).unwrap()).ok();
                return 3;
            }
            Ok(o) => {
                evals += 1;
                if ctx.nontrivial {
                    traces.insert(ctx.trace);
                }
                digest = digest.wrapping_add(mix(ctx.trace, idx));
                for (k, v) in &ctx.counters {
                    *agg.counters.entry(k.clone()).or_insert(0) += v;
                }
                agg.sim_days += ctx.sim_days;
                agg.known_hit.extend(ctx.known_hit.iter().cloned());
                if agg.states.len() < 2_000_000 {
                    agg.states.extend(ctx.states.iter());
                }
                if samples.len() < 2 && ctx.nontrivial {
                    let t = serde_json::to_value(&plan).unwrap();
                    if t.to_string().len() < 3000 || samples.is_empty() && idx > total / 2 {
                        samples.push(json!({"run": idx, "plan": t}));
                    }
                }
                if let Err(v) = o {
                    violation = json!({"idx": idx, "class": v.class, "msg": v.msg});
                    break;
                }
            }
        }
        idx += n;
    }
    progress.write_all_at(&0u64.to_le_bytes(), 0).unwrap();
    let res = json!({
        "evals": evals, "digest": digest, "counters": agg.counters, "sim_days": agg.sim_days,
        "known_hit": agg.known_hit, "states": agg.states, "traces": traces, "samples": samples,
        "violation": violation,
        "clock_reads": seams::clock_reads(), "entropy_reads": seams::entropy_reads(),
    });
    std::fs::write(out, serde_json::to_string(&res).unwrap()).unwrap();
    0
}

/// exec-plan: run one plan file in this process and report. exit 0 held, 1 violated, 3 harness error
/// (`prelude`: earlier runs of the same process, for violations that need what they left behind)
pub fn exec_plan(p: &dyn Property, prelude: &[Plan], plan: &Plan, root: &Path, verbose: bool) -> i32 {
    set_limits();
    install_panic_hook();
    let known = Paths { root: root.to_path_buf() }.known();
    for q in prelude {
        exec(p, q, &mut new_ctx(p, &known)).ok();
    }
    let mut ctx = new_ctx(p, &known);
    ctx.keep_log = verbose;
    let r = exec(p, plan, &mut ctx);
    if verbose {
        for l in &ctx.log {
            println!("{l}");
        }
    }
    match r {
        Err(m) => {
            eprintln!("harness error: {m}");
            3
        }
        Ok(Ok(())) => {
            println!("{}", json!({"held": true, "trace": format!("{:016x}", ctx.trace)}));
            0
        }
        Ok(Err(v)) => {
            println!("{}", json!({"held": false, "class": v.class, "msg": v.msg, "trace": format!("{:016x}", ctx.trace)}));
            1
        }
    }
}

/// Evaluate a plan in a fresh child process; Ok(None) = held.
fn child_eval(exe: &Path, id: &str, prelude: &[Plan], plan: &Plan, root: &Path, tmp: &Path, timeout: Duration) -> Result<Option<Violation>, String> {
    std::fs::write(tmp, json!({"prelude": prelude, "plan": plan}).to_string()).map_err(|e| e.to_string())?;
    let outp = tmp.with_extension("out");
    let out_f = std::fs::File::create(&outp).map_err(|e| e.to_string())?;
    let mut c = Command::new(exe)
        .args(["exec-plan", id])
        .arg(tmp)
        .env("FQSIM_ROOT", root)
        .stdout(Stdio::from(out_f))
        .stderr(Stdio::null())
        .stdin(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = c.try_wait().map_err(|e| e.to_string())? {
            break Some(s);
        }
        if t0.elapsed() > timeout {
            c.kill().ok();
            c.wait().ok();
            break None;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 50 { 1 } else { 10 }));
    };
    match st {
        None => Ok(Some(Violation { class: "hang".into(), msg: format!("the run did not return within {} s", timeout.as_secs()) })),
        Some(s) if s.code() == Some(0) => Ok(None),
        Some(s) if s.code() == Some(1) => {
            let o = std::fs::read_to_string(&outp).map_err(|e| e.to_string())?;
            let l = o.lines().last().unwrap_or("");
            let v: Value = serde_json::from_str(l).map_err(|e| e.to_string())?;
            Ok(Some(Violation { class: v["class"].as_str().unwrap_or("?").into(), msg: v["msg"].as_str().unwrap_or("").into() }))
        }
        Some(s) if s.code() == Some(3) => Err("harness error".into()),
        Some(s) => Ok(Some(Violation { class: "crash".into(), msg: format!("the process died: {s}") })),
    }
}

fn minimise(p: &dyn Property, exe: &Path, prelude: &[Plan], plan: &Plan, v: &Violation, root: &Path, tmp: &Path) -> (Plan, Violation, u32) {
    let limit = if std::env::var("FQSIM_FAST").is_ok() { 1 } else if v.class == "hang" { 120 } else { 60 };
    let budget = Duration::from_secs(limit);
    let timeout = Duration::from_secs(if v.class == "hang" { 6 } else { 60 });
    let t0 = Instant::now();
    let mut best = plan.clone();
    let mut bestv = v.clone();
    let mut tried = 0u32;
    let mut attempt = |cand: &Plan, best: &mut Plan, bestv: &mut Violation| -> bool {
        tried += 1;
        match child_eval(exe, p.id(), prelude, cand, root, tmp, timeout) {
            Ok(Some(nv)) if nv.class == v.class => {
                *best = cand.clone();
                *bestv = nv;
                true
            }
            _ => false,
        }
    };
    loop {
        let mut progress = false;
        // drop chunks of events
        let mut chunk = (best.events.len() / 2).max(1);
        while chunk >= 1 && t0.elapsed() < budget {
            let mut i = 0;
            while i < best.events.len() && t0.elapsed() < budget {
                let mut c = best.clone();
                let end = (i + chunk).min(c.events.len());
                c.events.drain(i..end);
                if attempt(&c, &mut best, &mut bestv) {
                    progress = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        for c in p.simplify(&best) {
            if t0.elapsed() >= budget {
                break;
            }
            if attempt(&c, &mut best, &mut bestv) {
                progress = true;
                break;
            }
        }
        if !progress || t0.elapsed() >= budget {
            return (best, bestv, tried);
        }
    }
}

/// The violation did not appear in a fresh process: find the earlier runs of the worker's process
/// that it needs (state the library keeps behind the caller's back), most recent first.
#[allow(clippy::too_many_arguments)]
fn find_prelude(p: &dyn Property, exe: &Path, plan: &Plan, seed: u64, thorough: bool, idx: u64, workers: u64, root: &Path, tmp: &Path) -> Result<Option<(Vec<Plan>, Violation)>, String> {
    let t0 = Instant::now();
    let budget = Duration::from_secs(if std::env::var("FQSIM_FAST").is_ok() { 20 } else { 110 });
    let earlier: Vec<u64> = (0..idx).filter(|i| i % workers == idx % workers).collect();
    let make = |ix: &[u64]| -> Vec<Plan> { ix.iter().map(|i| p.generate(&mut Prng::new(run_seed(seed, p.id(), *i)), *i, thorough)).collect() };
    let eval = |ix: &[u64]| child_eval(exe, p.id(), &make(ix), plan, root, tmp, Duration::from_secs(p.hang_secs() + 120));
    let mut k = 1;
    let (mut cur, mut v) = loop {
        let ix = earlier[earlier.len() - k.min(earlier.len())..].to_vec();
        if let Some(v) = eval(&ix)? {
            break (ix, v);
        }
        if k >= earlier.len() || k >= 1 << 15 || t0.elapsed() > budget {
            return Ok(None);
        }
        k *= 2;
    };
    let mut chunk = (cur.len() / 2).max(1);
    while t0.elapsed() < budget {
        let mut i = 0;
        while i < cur.len() && t0.elapsed() < budget {
            let mut c = cur.clone();
            c.drain(i..(i + chunk).min(c.len()));
            match eval(&c)? {
                Some(nv) => {
                    cur = c;
                    v = nv;
                }
                None => i += chunk,
            }
        }
        if chunk == 1 {
            break;
        }
        chunk /= 2;
    }
    Ok(Some((make(&cur), v)))
}

// ------------------------------------------------------------------ coordinator

pub fn coordinate(p: &dyn Property, thorough: bool, seed: u64, root: &Path, workers: u64, quiet: bool) -> i32 {
    install_panic_hook_default();
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let tmp = std::env::temp_dir().join(format!("fqsim-{}-{}", p.id(), std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let r = coordinate_in(p, thorough, seed, root, workers, quiet, &exe, &tmp, t0);
    std::fs::remove_dir_all(&tmp).ok();
    r
}

fn install_panic_hook_default() {}

#[allow(clippy::too_many_arguments)]
fn coordinate_in(p: &dyn Property, thorough: bool, seed: u64, root: &Path, workers: u64, quiet: bool, exe: &Path, tmp: &Path, t0: Instant) -> i32 {
    let id = p.id();
    let total = std::env::var("FQSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| p.runs(thorough));
    println!("fqsim {id} tier={} VERIF_SEED={seed} runs={total} workers={workers}", if thorough { "thorough" } else { "quick" });
    std::io::stdout().flush().ok();
    struct W {
        child: std::process::Child,
        out: PathBuf,
        last: u64,
        since: Instant,
        done: bool,
    }
    let mut ws: Vec<W> = (0..workers)
        .map(|w| {
            let out = tmp.join(format!("w{w}.json"));
            let child = Command::new(exe)
                .args(["worker", id, if thorough { "thorough" } else { "quick" }, &seed.to_string(), &w.to_string(), &workers.to_string(), &total.to_string()])
                .arg(&out)
                .env("FQSIM_ROOT", root)
                .stdin(Stdio::null())
                .spawn()
                .unwrap();
            W { child, out, last: 0, since: Instant::now(), done: false }
        })
        .collect();
    let mut viol: Vec<(u64, Violation)> = vec![];
    let mut harness_err: Option<String> = None;
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let prog = std::fs::read(w.out.with_extension("progress")).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
            if prog != w.last {
                w.last = prog;
                w.since = Instant::now();
            }
            if let Some(st) = w.child.try_wait().unwrap() {
                w.done = true;
                match st.code() {
                    Some(0) => {}
                    Some(3) => harness_err = Some(format!("worker reported a harness error (run {prog})")),
                    _ if prog > 0 => viol.push((prog - 1, Violation { class: "crash".into(), msg: format!("the process died: {st}") })),
                    _ => harness_err = Some(format!("worker ended with {st} before its first run")),
                }
            } else if prog > 0 && w.since.elapsed() > Duration::from_secs(p.hang_secs()) {
                w.child.kill().ok();
                w.child.wait().ok();
                w.done = true;
                viol.push((prog - 1, Violation { class: "hang".into(), msg: format!("the run did not return within {} s", p.hang_secs()) }));
            }
        }
    }
    if let Some(m) = harness_err {
        eprintln!("fqsim {id}: {m}");
        return 2;
    }
    // merge
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let (mut evals, mut digest, mut days, mut creads, mut ereads) = (0u64, 0u64, 0f64, 0u64, 0u64);
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut known_hit: BTreeSet<String> = BTreeSet::new();
    let mut samples: Vec<Value> = vec![];
    for w in &ws {
        let Ok(s) = std::fs::read_to_string(&w.out) else { continue };
        let v: Value = serde_json::from_str(&s).unwrap();
        evals += v["evals"].as_u64().unwrap();
        digest = digest.wrapping_add(v["digest"].as_u64().unwrap());
        days += v["sim_days"].as_f64().unwrap_or(0.0);
        creads += v["clock_reads"].as_u64().unwrap();
        ereads += v["entropy_reads"].as_u64().unwrap();
        for (k, n) in v["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        states.extend(v["states"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
        traces.extend(v["traces"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
        known_hit.extend(v["known_hit"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()));
        if samples.len() < 3 {
            samples.extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
        }
        if !v["violation"].is_null() {
            viol.push((
                v["violation"]["idx"].as_u64().unwrap(),
                Violation { class: v["violation"]["class"].as_str().unwrap().into(), msg: v["violation"]["msg"].as_str().unwrap().into() },
            ));
        }
    }
    viol.sort_by_key(|x| x.0);
    let mut code = 0;
    let mut replay_info = Value::Null;
    // confirm in a fresh process before believing it
    let plan_of = |idx: u64| p.generate(&mut Prng::new(run_seed(seed, id, idx)), idx, thorough);
    let mut confirmed: Option<(u64, Violation, Vec<Plan>, Violation)> = None;
    for (idx, v) in &viol {
        match child_eval(exe, id, &[], &plan_of(*idx), root, &tmp.join("confirm.json"), Duration::from_secs(p.hang_secs())) {
            Ok(Some(cv)) => {
                confirmed = Some((*idx, v.clone(), vec![], cv));
                break;
            }
            Ok(None) => {}
            Err(m) => {
                eprintln!("fqsim {id}: {m}");
                return 2;
            }
        }
    }
    if confirmed.is_none() {
        for (idx, v) in &viol {
            match find_prelude(p, exe, &plan_of(*idx), seed, thorough, *idx, workers, root, &tmp.join("confirm.json")) {
                Ok(Some((pre, cv))) => {
                    confirmed = Some((*idx, v.clone(), pre, cv));
                    break;
                }
                Ok(None) => {}
                Err(m) => {
                    eprintln!("fqsim {id}: {m}");
                    return 2;
                }
            }
        }
    }
    if let (Some((idx, v)), None) = (viol.first(), &confirmed) {
        eprintln!("fqsim {id}: run {idx} [{}] {} did not reproduce in a fresh process (harness error)", v.class, v.msg);
        return 2;
    }
    if let Some((idx, v, prelude, cv)) = confirmed {
        let plan = plan_of(idx);
        let n_before = plan.events.len();
        let (mplan, mv, tried) = minimise(p, exe, &prelude, &plan, &cv, root, &tmp.join("min.json"));
        let dir = root.join("replays");
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{id}-seed{seed}-run{idx}.json"));
        let rep = json!({
            "property": id, "verif_seed": seed, "run": idx, "tier": if thorough { "thorough" } else { "quick" },
            "run_seed": format!("{:016x}", run_seed(seed, id, idx)),
            "violation": mv, "first_seen": v, "events_before_minimising": n_before, "minimiser_evaluations": tried,
            "prelude": prelude, "plan": mplan,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("run {idx} (run seed {:016x}): [{}] {}", run_seed(seed, id, idx), v.class, v.msg);
        if !prelude.is_empty() {
            println!("needs {} earlier run(s) in the same process: state is kept between calls", prelude.len());
        }
        println!("minimised from {n_before} to {} events: [{}] {}", rep["plan"]["events"].as_array().unwrap().len(), rep["violation"]["class"].as_str().unwrap(), rep["violation"]["msg"].as_str().unwrap());
        println!("VIOLATION property={id} replay={}", path.display());
        replay_info = json!(path.display().to_string());
        code = 1;
    }
    let all_known = Paths { root: root.to_path_buf() }.known();
    for k in all_known.iter().filter(|k| k.property == id) {
        if known_hit.contains(&k.what) {
            println!("KNOWN-FINDING: property={id} {}", k.what);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let (real, stub) = p.components();
    let ev = json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": p.level(),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": traces.len(), "rule": p.rule(), "samples": samples,
            "simulated_runs": evals, "runs_per_hour": (evals as f64 / wall.max(1e-9) * 3600.0).round(),
            "simulated_days": days.round(), "faults_injected_and_fired": faults, "operations_and_probes": probes,
            "distinct_abstract_states": states.len(),
            "distinct_interleavings": traces.len(),
            "components_real": real, "components_stubbed": stub,
            "event_log_digest": format!("{digest:016x}"), "worker_processes": workers,
            "simulated_clock_reads": creads, "simulated_entropy_reads": ereads,
            "known_findings_seen": known_hit, "replay": replay_info,
        },
        "assumptions": p.assumptions(), "wall_s": (wall * 100.0).round() / 100.0, "violations": if code == 1 { 1 } else { 0 },
    });
    let evd = root.join("evidence");
    std::fs::create_dir_all(&evd).ok();
    std::fs::write(evd.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{id}: {evals} runs, {} distinct non-trivial, {} abstract states, {:.1} s, digest {digest:016x}", traces.len(), states.len(), wall);
    if !quiet {
        for (k, n) in &counters {
            println!("  {k} = {n}");
        }
    }
    code
}

/// Replay a replay file in a fresh process: exit 1 if the recorded violation appears again.
pub fn replay(p: &dyn Property, file: &Path, root: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let plan: Plan = serde_json::from_value(v["plan"].clone()).expect("plan");
    let exe = std::env::current_exe().unwrap();
    let tmp = std::env::temp_dir().join(format!("fqsim-replay-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let prelude: Vec<Plan> = v.get("prelude").map(|x| serde_json::from_value(x.clone()).expect("prelude")).unwrap_or_default();
    let r = child_eval(&exe, p.id(), &prelude, &plan, root, &tmp.join("plan.json"), Duration::from_secs(p.hang_secs() + if prelude.is_empty() { 0 } else { 120 }));
    std::fs::remove_dir_all(&tmp).ok();
    match r {
        Ok(None) => {
            println!("replay {}: the property held (recorded: [{}] {})", file.display(), v["violation"]["class"], v["violation"]["msg"]);
            0
        }
        Ok(Some(nv)) => {
            println!("replay {}: [{}] {}", file.display(), nv.class, nv.msg);
            println!("recorded: [{}] {}", v["violation"]["class"], v["violation"]["msg"]);
            println!("VIOLATION property={} replay={}", p.id(), file.display());
            1
        }
        Err(m) => {
            eprintln!("{m}");
            2
        }
    }
}
