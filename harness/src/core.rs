//! Monitoring core: case accounting, verdicts, supervision of the worker shards, evidence.
//!
//! Verdicts are three-valued: a violation (exit 1), held on everything observed (exit 0),
//! inconclusive (exit 2: a monitor that saw too few events, a harness error, a watchdog).

use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub type R = ChaCha8Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub rng: R,
    pub scratch: PathBuf,
    start: Instant,
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    states: BTreeMap<String, HashSet<u64>>,
    samples: Vec<Value>,
    violations: Vec<Value>,
    viol_sigs: HashSet<String>,
    explore: bool,
    fast: bool,
    scale: u64,
    required: Vec<(String, u64)>,
    case_file: Option<std::fs::File>,
    pub case_tag: String,
    pub rule: String,
    pub assumptions: Vec<String>,
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    static IN_GUARD: std::cell::Cell<u32> = std::cell::Cell::new(0);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let full = format!("{} at {}", msg, loc);
        LAST_PANIC.with(|p| *p.borrow_mut() = full.clone());
        if IN_GUARD.with(|g| g.get()) == 0 {
            eprintln!("PANIC(outside guard): {}", full);
        }
    }));
}

/// Runs code under test; a panic becomes Err(message with location).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    IN_GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        if m.is_empty() {
            if let Some(s) = e.downcast_ref::<&str>() {
                return s.to_string();
            }
            if let Some(s) = e.downcast_ref::<String>() {
                return s.clone();
            }
            return "panic".into();
        }
        m
    })
}

pub fn cpu_seconds_self() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

/// Time spent computing by this process and the ended ones it started.
fn cpu_seconds_all() -> f64 {
    let mut u: libc::rusage = unsafe { std::mem::zeroed() };
    unsafe { libc::getrusage(libc::RUSAGE_CHILDREN, &mut u) };
    let s = |t: libc::timeval| t.tv_sec as f64 + t.tv_usec as f64 * 1e-6;
    cpu_seconds_self() + s(u.ru_utime) + s(u.ru_stime)
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, shard: u64, shards: u64, scratch: PathBuf) -> Self {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&seed.to_le_bytes());
        s[8..16].copy_from_slice(&shard.to_le_bytes());
        s[16..24].copy_from_slice(&fnv(id.as_bytes()).to_le_bytes());
        Ctx {
            id: id.to_owned(),
            tier,
            seed,
            shard,
            shards,
            rng: R::from_seed(s),
            case_file: std::fs::OpenOptions::new()
                .create(true)
                .write(true)
                .truncate(true)
                .open(scratch.join(format!("case.{}", shard)))
                .ok(),
            scratch,
            start: Instant::now(),
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            states: BTreeMap::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            viol_sigs: HashSet::new(),
            scale: std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).filter(|x| *x > 0).unwrap_or(1),
            explore: std::env::var("VH_EXPLORE").is_ok(),
            fast: std::env::var("VH_FAST").is_ok(),
            required: Vec::new(),
            case_tag: String::new(),
            rule: String::new(),
            assumptions: Vec::new(),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Number of cases for this shard, given the total for each tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let total = if self.quick() { quick } else { thorough };
        ((total + self.shards - 1) / self.shards + self.scale - 1) / self.scale
    }

    /// True while this shard is inside its soft time budget (seconds per tier).
    pub fn in_time(&self, quick_s: u64, thorough_s: u64) -> bool {
        let b = if self.quick() { quick_s } else { thorough_s };
        // sanitized runs are a sample
        let b = if self.scale > 1 { b.min(400 / self.scale) } else { b };
        // trials on altered code are over with the first report
        if self.fast && !self.violations.is_empty() {
            return false;
        }
        // a loaded machine stretches the budget, up to four times (quick)
        let wall = self.start.elapsed().as_secs_f64();
        let stretch = if self.quick() { 4.0 } else { 1.4 };
        cpu_seconds_all().max(wall / stretch).min(wall) < b as f64
    }

    /// Records one executed case. `key` identifies it; trivial cases are not counted as distinct.
    pub fn case(&mut self, key: &[u8], nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(fnv(key));
        }
    }

    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_owned()).or_insert(0) += n;
    }

    /// Records a distinct observed state/behaviour in class `name`.
    pub fn state(&mut self, name: &str, key: &[u8]) {
        self.states.entry(name.to_owned()).or_default().insert(fnv(key));
    }

    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 && self.shard == 0 {
            self.samples.push(v);
        }
    }

    /// The monitor is inconclusive if fewer than `n` events of this name were seen (over all shards).
    pub fn require(&mut self, name: &str, n: u64) {
        self.required.push((name.to_owned(), n));
    }

    /// Notes which case is about to run, so that a crash of the process can be attributed.
    pub fn about(&mut self, what: &str) {
        self.case_tag = what.to_owned();
        if let Some(f) = self.case_file.as_mut() {
            use std::io::{Seek, SeekFrom};
            let _ = f.seek(SeekFrom::Start(0));
            let cpu = cpu_seconds_self();
            let mut b = format!("{:014.3} {}", cpu, what).into_bytes();
            b.truncate(4000);
            b.push(b'\n');
            let _ = f.write_all(&b);
        }
    }

    pub fn violation(&mut self, sig: &str, detail: Value) {
        if self.explore {
            *self.counters.entry(format!("viol:{}", sig)).or_insert(0) += 1;
        }
        if self.viol_sigs.insert(sig.to_owned()) && self.violations.len() < 200 {
            self.violations.push(json!({
                "signature": sig, "detail": detail, "case": self.case_tag,
                "shard": self.shard, "seed": self.seed,
            }));
            eprintln!("[{}] violation candidate: {} :: {}", self.id, sig,
                detail.to_string().chars().take(600).collect::<String>());
        }
    }

    /// The monitor's assertion: `cond` must hold, else a violation named `sig` is recorded.
    pub fn check(&mut self, cond: bool, sig: &str, detail: impl FnOnce() -> Value) -> bool {
        if !cond {
            self.violation(sig, detail());
        }
        cond
    }

    /// Runs code that must not panic.
    pub fn no_panic<T>(&mut self, sig: &str, detail: impl FnOnce() -> Value, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(e) => {
                let mut d = detail();
                if let Value::Object(m) = &mut d {
                    m.insert("panic".into(), json!(e));
                } else {
                    d = json!({"input": d, "panic": e});
                }
                self.violation(&format!("panic:{}", sig), d);
                None
            }
        }
    }

    pub fn has_violations(&self) -> bool {
        !self.violations.is_empty()
    }

    fn to_result(&self) -> Value {
        json!({
            "evals": self.evals,
            "counters": self.counters,
            "states": self.states.iter().map(|(k, v)| (k.clone(), v.iter().copied().collect::<Vec<u64>>())).collect::<BTreeMap<_, _>>(),
            "distinct": self.distinct.iter().copied().collect::<Vec<u64>>(),
            "samples": self.samples,
            "violations": self.violations,
            "required": self.required,
            "rule": self.rule,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
        })
    }
}

pub struct Spec {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
    pub shards: u64,
    pub level: &'static str,
    /// Address-space limit per worker in MiB (0: none).
    pub as_mb: u64,
    /// CPU seconds a single announced case may use before it counts as "does not return" (0: none).
    pub case_cpu: f64,
    /// Hard wall-clock watchdog per tier (seconds): inconclusive when it fires.
    pub wall: (u64, u64),
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn repo_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()))
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

/// Scratch working directory with the word list in ./data, as the code expects.
pub fn make_scratch(root: &Path, name: &str) -> PathBuf {
    let d = root.join(name);
    std::fs::create_dir_all(d.join("data")).unwrap();
    let _ = std::fs::copy(
        repo_dir().join("data/mnemonics_wordlist.txt"),
        d.join("data/mnemonics_wordlist.txt"),
    );
    d
}

pub fn worker_main(spec: &Spec, shard: u64, shards: u64, scratch: PathBuf) -> i32 {
    install_panic_hook();
    if spec.as_mb > 0 && std::env::var("VH_SAN").is_err() {
        let lim = libc::rlimit { rlim_cur: spec.as_mb << 20, rlim_max: spec.as_mb << 20 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    }
    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &core) };
    let wd = make_scratch(&scratch, &format!("w{}", shard));
    std::env::set_current_dir(&wd).unwrap();
    let mut ctx = Ctx::new(spec.id, env_tier(), env_seed(), shard, shards, scratch.clone());
    ctx.about("start");
    let run = spec.run;
    let r = guard(|| run(&mut ctx));
    ctx.about("end");
    let mut res = ctx.to_result();
    if let Err(e) = r {
        // the harness gives the code under test nothing it may panic on
        if e.contains(" at /repo/src/") {
            ctx.violation("panicked", json!({"panic": e}));
            res = ctx.to_result();
        } else {
            res["harness_error"] = json!(e);
        }
    }
    std::fs::write(scratch.join(format!("result.{}", shard)), res.to_string()).unwrap();
    0
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for line in s.lines() {
            // finding: property=C07 signature=<sig> :: <description>
            if let Some(rest) = line.strip_prefix("finding: ") {
                let prop = format!("property={} ", id);
                if let Some(rest) = rest.strip_prefix(prop.as_str()) {
                    if let Some(rest) = rest.strip_prefix("signature=") {
                        if let Some((sig, desc)) = rest.split_once(" :: ") {
                            out.push((sig.trim().to_owned(), desc.trim().to_owned()));
                        }
                    }
                }
            }
        }
    }
    out
}

fn proc_cpu_seconds(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
    Some((ut + st) / hz)
}

pub fn supervise(spec: &Spec) -> i32 {
    let t0 = Instant::now();
    let tier = env_tier();
    let seed = env_seed();
    let root = verif_dir().join(".work");
    std::fs::create_dir_all(&root).unwrap();
    let scratch = root.join(format!("{}-{}", spec.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    let evdir = verif_dir().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    for e in std::fs::read_dir(&evdir).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with(&format!("replay-{}-", spec.id)) {
            let _ = std::fs::remove_file(e.path());
        }
    }

    let exe = std::env::current_exe().unwrap();
    let mut kids = Vec::new();
    for s in 0..spec.shards {
        let out = std::fs::File::create(scratch.join(format!("out.{}", s))).unwrap();
        let err = std::fs::File::create(scratch.join(format!("err.{}", s))).unwrap();
        let c = std::process::Command::new(&exe)
            .args(["--worker", spec.id, &s.to_string(), &spec.shards.to_string()])
            .arg(&scratch)
            .env("RAYON_NUM_THREADS", std::env::var("RAYON_NUM_THREADS").unwrap_or_else(|_| "4".into()))
            .stdin(std::process::Stdio::null())
            .stdout(out)
            .stderr(err)
            .spawn()
            .unwrap();
        kids.push((s, Some(c)));
    }
    let wall = if tier == Tier::Quick { spec.wall.0 } else { spec.wall.1 };
    let mut crashed: Vec<(u64, String)> = Vec::new();
    let mut inconclusive: Vec<String> = Vec::new();
    let mut hung: Vec<(u64, String)> = Vec::new();
    loop {
        let mut alive = 0;
        for (s, k) in kids.iter_mut() {
            if let Some(c) = k {
                match c.try_wait() {
                    Ok(Some(st)) => {
                        use std::os::unix::process::ExitStatusExt;
                        if let Some(sig) = st.signal() {
                            if sig == libc::SIGKILL || sig == libc::SIGTERM {
                                inconclusive.push(format!("worker {} was killed by signal {}", s, sig));
                            } else {
                                crashed.push((*s, format!("signal {}", sig)));
                            }
                        } else if st.code() != Some(0) {
                            inconclusive.push(format!("worker {} exited with {:?}", s, st.code()));
                        }
                        *k = None;
                    }
                    Ok(None) => {
                        alive += 1;
                        if spec.case_cpu > 0.0 {
                            // a single announced case that burns far more CPU than any legitimate one
                            let cf = std::fs::read_to_string(scratch.join(format!("case.{}", s))).unwrap_or_default();
                            if let (Some(cpu), Some((st, what))) = (proc_cpu_seconds(c.id()), cf.split_once(' ')) {
                                if let Ok(stf) = st.parse::<f64>() {
                                    if cpu - stf > spec.case_cpu && !what.trim().is_empty() {
                                        hung.push((*s, what.lines().next().unwrap_or("").to_owned()));
                                        let _ = c.kill();
                                        let _ = c.wait();
                                        *k = None;
                                    }
                                }
                            }
                        }
                    }
                    Err(e) => {
                        inconclusive.push(format!("wait: {}", e));
                        *k = None;
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        if t0.elapsed().as_secs() > wall {
            for (s, k) in kids.iter_mut() {
                if let Some(c) = k {
                    let _ = c.kill();
                    let _ = c.wait();
                    inconclusive.push(format!("worker {} hit the wall-clock watchdog ({} s)", s, wall));
                    *k = None;
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }

    // merge
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: BTreeMap<String, HashSet<u64>> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut violations: Vec<Value> = Vec::new();
    let mut required: BTreeMap<String, u64> = BTreeMap::new();
    let mut rule = String::new();
    let mut assumptions: Vec<Value> = Vec::new();
    for s in 0..spec.shards {
        let p = scratch.join(format!("result.{}", s));
        let mut txt = String::new();
        if let Ok(mut f) = std::fs::File::open(&p) {
            let _ = f.read_to_string(&mut txt);
        }
        let v: Value = match serde_json::from_str(&txt) {
            Ok(v) => v,
            Err(_) => continue,
        };
        evals += v["evals"].as_u64().unwrap_or(0);
        for d in v["distinct"].as_array().unwrap() {
            distinct.insert(d.as_u64().unwrap());
        }
        for (k, n) in v["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for (k, n) in v["states"].as_object().unwrap() {
            let e = states.entry(k.clone()).or_default();
            for x in n.as_array().unwrap() {
                e.insert(x.as_u64().unwrap());
            }
        }
        for x in v["samples"].as_array().unwrap() {
            if samples.len() < 4 {
                samples.push(x.clone());
            }
        }
        for x in v["violations"].as_array().unwrap() {
            violations.push(x.clone());
        }
        for x in v["required"].as_array().unwrap() {
            required.insert(x[0].as_str().unwrap().to_owned(), x[1].as_u64().unwrap());
        }
        if rule.is_empty() {
            rule = v["rule"].as_str().unwrap_or("").to_owned();
        }
        if assumptions.is_empty() {
            assumptions = v["assumptions"].as_array().cloned().unwrap_or_default();
        }
        if let Some(e) = v["harness_error"].as_str() {
            inconclusive.push(format!("harness error in worker {}: {}", s, e));
        }
    }
    for (s, how) in &crashed {
        let cf = std::fs::read_to_string(scratch.join(format!("case.{}", s))).unwrap_or_default();
        let err = std::fs::read_to_string(scratch.join(format!("err.{}", s))).unwrap_or_default();
        let what = cf.lines().next().unwrap_or("").splitn(2, ' ').nth(1).unwrap_or("").to_owned();
        let kind = what.split(' ').next().unwrap_or("").to_owned();
        violations.push(json!({
            "signature": format!("crash:{}", kind),
            "detail": {"how": how, "during": what, "stderr_tail": err.chars().rev().take(2000).collect::<String>().chars().rev().collect::<String>()},
            "shard": s, "seed": seed}));
    }
    for (s, what) in &hung {
        let kind = what.split(' ').next().unwrap_or("").to_owned();
        violations.push(json!({
            "signature": format!("no-return:{}", kind),
            "detail": {"cpu_limit_s": spec.case_cpu, "during": what}, "shard": s, "seed": seed}));
    }
    for (k, v) in &states {
        counters.insert(format!("distinct {}", k), v.len() as u64);
    }
    if crashed.is_empty() && hung.is_empty() {
        for (k, n) in &required {
            let have = counters.get(k).copied().unwrap_or(0);
            // a loaded machine gets through less of the time-bounded work; kinds must all be seen even so
            let n = if k.starts_with("distinct ") || *n <= 20 { *n } else { (*n / 8).max(20) };
            if have < n {
                inconclusive.push(format!("monitor saw only {} of at least {} '{}' events", have, n, k));
            }
        }
        if evals == 0 {
            inconclusive.push("no case was executed".into());
        }
    }

    // see tools/stub_hooks.py
    if std::env::var("VERIF_TARGET").map_or(false, |t| std::path::Path::new(&t).join("stub-hit").exists()) {
        println!("INCONCLUSIVE property={} needs a verification hook that does not build", spec.id);
        return 2;
    }

    let known = known_findings(spec.id);
    let mut seen_sig: HashSet<String> = HashSet::new();
    let mut real = 0;
    let mut n = 0;
    for v in &violations {
        let sig = v["signature"].as_str().unwrap_or("?").to_owned();
        if !seen_sig.insert(sig.clone()) {
            continue;
        }
        if let Some((_, desc)) = known.iter().find(|(k, _)| *k == sig) {
            println!("KNOWN-FINDING: property={} {} [{}]", spec.id, desc, sig);
            continue;
        }
        real += 1;
        if n < 10 {
            let p = evdir.join(format!("replay-{}-{}.json", spec.id, n));
            let body = json!({
                "property": spec.id, "seed": seed, "tier": format!("{:?}", tier), "violation": v,
                "replay": format!("cd /verif && VERIF_SEED={} VERIF_TIER={} ./check.sh {}", seed,
                    if tier == Tier::Quick {"quick"} else {"thorough"}, spec.id),
            });
            std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).unwrap();
            println!("VIOLATION property={} replay={}", spec.id, p.display());
            println!("  {}: {}", sig, v["detail"].to_string().chars().take(400).collect::<String>());
            n += 1;
        }
    }
    let cov = json!({
        "evaluations": evals,
        "distinct_nontrivial": distinct.len(),
        "rule": rule,
        "samples": samples,
        "observed": counters,
        "workers": spec.shards,
        "inconclusive": inconclusive,
    });
    let ev = json!({
        "property": spec.id,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": spec.level,
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": real,
    });
    std::fs::write(evdir.join(format!("{}.json", spec.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if std::env::var("VH_EXPLORE").is_ok() || !inconclusive.is_empty() {
        for s in 0..spec.shards {
            let e = std::fs::read_to_string(scratch.join(format!("err.{}", s))).unwrap_or_default();
            if !e.is_empty() {
                eprintln!("--- worker {} stderr\n{}", s, e.chars().take(4000).collect::<String>());
            }
        }
    }
    if std::env::var("VH_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&scratch);
    }
    println!(
        "{} tier={:?} seed={} evaluations={} distinct={} wall={:.1}s violations={} observed={}",
        spec.id, tier, seed, evals, distinct.len(), t0.elapsed().as_secs_f64(), real,
        serde_json::to_string(&counters).unwrap()
    );
    if real > 0 {
        return 1;
    }
    if !inconclusive.is_empty() {
        for i in &inconclusive {
            println!("INCONCLUSIVE property={} {}", spec.id, i);
        }
        return 2;
    }
    0
}

// ---- small generator helpers -------------------------------------------------

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn bytes(r: &mut R, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.gen::<u8>()).collect()
}

/// Length of a message longer than any buffer or length field of 16 bits.
pub fn long_len(r: &mut R) -> usize {
    match r.gen_range(0, 4) {
        0 => 65_535 + r.gen_range(0, 4),
        1 => 131_071 + r.gen_range(0, 4),
        2 => r.gen_range(4_000, 70_000),
        _ => r.gen_range(66_000, 150_000),
    }
}

pub fn arr32(r: &mut R) -> [u8; 32] {
    let mut a = [0u8; 32];
    for x in a.iter_mut() {
        *x = r.gen();
    }
    a
}

/// 32 bytes biased to structured values (few bits set, zero, all ones, shared prefixes).
pub fn arr32_biased(r: &mut R) -> [u8; 32] {
    match r.gen_range(0, 8) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => {
            let mut a = [0; 32];
            a[r.gen_range(0, 32)] = 1 << r.gen_range(0, 8);
            a
        }
        3 => {
            let mut a = arr32(r);
            let k = r.gen_range(0, 33);
            for x in a[k..].iter_mut() {
                *x = 0;
            }
            a
        }
        4 => {
            let mut a = arr32(r);
            let k = r.gen_range(0, 33);
            for x in a[..k].iter_mut() {
                *x = 0;
            }
            a
        }
        _ => arr32(r),
    }
}

/// u64 biased to boundaries.
pub fn u64_biased(r: &mut R) -> u64 {
    match r.gen_range(0, 10) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - r.gen_range(0, 4),
        4 => 1u64 << r.gen_range(0, 64),
        5 => (1u64 << r.gen_range(0, 64)).wrapping_sub(1),
        6 => r.gen_range(0, 100),
        7 => r.gen_range(0, 1_000_000),
        8 => r.gen::<u64>() >> r.gen_range(0, 64),
        _ => r.gen(),
    }
}

pub fn pick<'a, T>(r: &mut R, v: &'a [T]) -> &'a T {
    &v[r.gen_range(0, v.len())]
}
