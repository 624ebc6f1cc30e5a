//! The property runner: seeded generation, shrinking, sharding, replay,
//! known findings and evidence.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::Instant;

/// A property failure. `sig` identifies what failed, for the known-findings file.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { return $crate::fw::fail($sig, format!($($arg)*)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr) => {
        match (&$a, &$b) {
            (a, b) => if *a != *b { return $crate::fw::fail($sig, format!("got {:02x?}, expected {:02x?}", a, b)); }
        }
    };
}

/// What one evaluated case was like.
#[derive(Default)]
pub struct Obs {
    pub trivial: bool,
    pub labels: Vec<String>,
}
impl Obs {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
}

#[derive(Default, Serialize, Deserialize, Clone)]
pub struct PartStats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub known: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    pub part: String,
    pub sig: String,
    pub msg: String,
    pub case: Value,
}

#[derive(Serialize, Deserialize, Default)]
struct ShardReport {
    parts: BTreeMap<String, PartStats>,
    violation: Option<Violation>,
    done: bool,
}

pub struct Run {
    pub thorough: bool,
    /// Cases of the parts that follow do this many times the usual work.
    pub heavy: i64,
    seed: u64,
    shard: u32,
    nshards: u32,
    isolate: bool,
    known: Vec<String>,
    replay: Option<(String, Value)>,
    pub replay_result: Option<Res>,
    only: Option<String>,
    scale: f64,
    parts: BTreeMap<String, PartStats>,
    hashes: HashSet<u64>,
    violation: Option<Violation>,
    t_print: bool,
    /// Number of the case being run, in memory shared with the parent process.
    progress: *mut u64,
    /// Cases before this one are known to pass (isolated rerun of a shard that died).
    resume_at: u64,
}

/// Processor time one case may take; beyond it the case counts as hanging.
fn case_seconds(thorough: bool) -> i64 {
    if thorough {
        120
    } else {
        20
    }
}
/// The kernel ends this process (SIGPROF) after so much processor time; 0: never.
fn cpu_alarm(seconds: i64) {
    let t = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: seconds, tv_usec: 0 } };
    unsafe { libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut()) };
}
fn shared_counter() -> *mut u64 {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    assert!(p != libc::MAP_FAILED);
    p as *mut u64
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn short(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut i = n;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
        s.push_str("...");
    }
    s
}

fn shorten_value(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 600 {
        v.clone()
    } else {
        Value::String(short(s, 600))
    }
}

/// Runs `f`, turning a panic into a failure.
pub fn guarded(f: impl FnOnce() -> Res) -> Res {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            fail("panic", format!("panicked: {m}"))
        }
    }
}

/// `Some(result)` or `None` if it panicked (for operations documented to panic).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        #[cfg(feature = "tls")]
        crate::tls::sess::on_panic(&msg, &loc);
        PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("{msg} [{loc}]"))
            }
        });
    }));
}

/// Runs `f` in a child process so that an abort or a crash becomes a failure.
fn isolated(seconds: i64, f: impl FnOnce() -> Res) -> Res {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            cpu_alarm(seconds);
            let r = guarded(f);
            let out = serde_json::to_vec(&r).unwrap();
            let mut off = 0;
            while off < out.len() {
                let n = libc::write(fds[1], out[off..].as_ptr() as *const _, out.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = Vec::new();
        let mut chunk = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], chunk.as_mut_ptr() as *mut _, chunk.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGKILL {
                eprintln!("harness: case ended by SIGKILL (memory?)");
                libc::_exit(3);
            }
            if sig == libc::SIGPROF {
                return fail("hang", format!("the case did not end within {seconds} seconds of processor time"));
            }
            return fail(format!("crash-signal-{sig}"), format!("the process died with signal {sig}"));
        }
        match serde_json::from_slice::<Res>(&buf) {
            Ok(r) => r,
            Err(_) => fail("crash", "the case ended the process"),
        }
    }
}

fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = DefaultHasher::new();
    h.write(b);
    h.finish()
}

fn seed32(seed: u64, part: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, c) in out.chunks_mut(8).enumerate() {
        let mut h = DefaultHasher::new();
        h.write_u64(seed);
        h.write(part.as_bytes());
        h.write_u32(shard);
        h.write_usize(i);
        c.copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

impl Run {
    fn exec<C>(&self, c: &C, obs: &mut Obs, f: &impl Fn(&C, &mut Obs) -> Res) -> Res {
        let n = unsafe {
            *self.progress += 1;
            *self.progress
        };
        if n < self.resume_at {
            return Ok(());
        }
        let limit = case_seconds(self.thorough) * self.heavy;
        if self.isolate {
            let cell = RefCell::new(Obs::default());
            // Candidates of a shrinking hang get less time, as there are many.
            let limit = if n == self.resume_at { limit } else { (5 * self.heavy).min(limit) };
            isolated(limit, || f(c, &mut cell.borrow_mut()))
        } else {
            cpu_alarm(limit);
            let r = guarded(|| f(c, obs));
            cpu_alarm(0);
            r
        }
    }

    fn record(&mut self, part: &str, json: &[u8], obs: Obs, known: Option<String>) {
        let st = self.parts.entry(part.to_string()).or_default();
        st.evaluations += 1;
        for l in obs.labels {
            *st.labels.entry(l).or_default() += 1;
        }
        if let Some(k) = known {
            *st.known.entry(k).or_default() += 1;
        }
        if !obs.trivial {
            let mut h = DefaultHasher::new();
            h.write(part.as_bytes());
            h.write(json);
            if self.hashes.insert(h.finish()) {
                st.nontrivial += 1;
                if st.samples.len() < 2 {
                    if let Ok(v) = serde_json::from_slice::<Value>(json) {
                        st.samples.push(shorten_value(&v));
                    }
                }
            }
        }
    }

    fn skip(&self, part: &str) -> bool {
        self.violation.is_some() || self.only.as_deref().is_some_and(|o| o != part)
    }

    fn try_replay<C: DeserializeOwned>(&mut self, part: &str, f: &impl Fn(&C, &mut Obs) -> Res) -> bool {
        let Some((p, v)) = self.replay.clone() else { return false };
        if p == part {
            let c: C = serde_json::from_value(v).expect("replay file does not fit this part");
            self.replay_result = Some(isolated(case_seconds(true) * self.heavy, || f(&c, &mut Obs::default())));
        }
        true
    }

    /// A generated part: `quick`/`thorough` cases in total over all shards.
    pub fn gen<S>(&mut self, part: &str, quick: u32, thorough: u32, strat: S, f: impl Fn(&S::Value, &mut Obs) -> Res)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone,
    {
        if self.try_replay(part, &f) || self.skip(part) {
            return;
        }
        let total = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u32;
        let cases = total / self.nshards + (self.shard < total % self.nshards) as u32;
        if cases == 0 {
            return;
        }
        let t0 = Instant::now();
        let cfg = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 3000,
            max_shrink_time: 15_000,
            max_global_rejects: 100 * cases + 10000,
            max_local_rejects: 1_000_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed32(self.seed, part, self.shard));
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let me = RefCell::new(&mut *self);
        let failed = RefCell::new(false);
        let res = runner.run(&strat, |c| {
            let mut me = me.borrow_mut();
            let mut obs = Obs::default();
            let r = me.exec(&c, &mut obs, &f);
            let shrinking = *failed.borrow();
            let known = match &r {
                Err(e) if me.known.contains(&e.sig) => Some(e.sig.clone()),
                _ => None,
            };
            if !shrinking {
                let js = serde_json::to_vec(&c).expect("case serialises");
                me.record(part, &js, obs, known.clone());
            }
            match r {
                Err(e) if known.is_none() => {
                    *failed.borrow_mut() = true;
                    Err(TestCaseError::fail(serde_json::to_string(&e).unwrap()))
                }
                _ => Ok(()),
            }
        });
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, min)) => {
                let e: Fail = serde_json::from_str(reason.message()).unwrap_or(Fail { sig: "?".into(), msg: reason.to_string() });
                self.violation = Some(Violation {
                    part: part.into(),
                    sig: e.sig,
                    msg: e.msg,
                    case: serde_json::to_value(&min).unwrap(),
                });
            }
            Err(TestError::Abort(r)) => {
                eprintln!("harness: generator of part {part} gave up: {r}");
                unsafe { libc::_exit(3) };
            }
        }
        if self.t_print && self.shard == 0 {
            eprintln!("  part {part}: {cases} cases/shard {:.2}s", t0.elapsed().as_secs_f64());
        }
    }

    /// An enumerated part: every case is evaluated (divided over the shards).
    pub fn all<C>(&mut self, part: &str, cases: impl IntoIterator<Item = C>, f: impl Fn(&C, &mut Obs) -> Res)
    where
        C: Serialize + DeserializeOwned + Debug + Clone,
    {
        if self.try_replay(part, &f) || self.skip(part) {
            return;
        }
        let t0 = Instant::now();
        let mut n = 0;
        for (i, c) in cases.into_iter().enumerate() {
            if i as u32 % self.nshards != self.shard {
                continue;
            }
            n += 1;
            let mut obs = Obs::default();
            let r = self.exec(&c, &mut obs, &f);
            let known = match &r {
                Err(e) if self.known.contains(&e.sig) => Some(e.sig.clone()),
                _ => None,
            };
            let js = serde_json::to_vec(&c).expect("case serialises");
            self.record(part, &js, obs, known.clone());
            if let Err(e) = r {
                if known.is_none() {
                    self.violation = Some(Violation {
                        part: part.into(),
                        sig: e.sig,
                        msg: e.msg,
                        case: serde_json::to_value(&c).unwrap(),
                    });
                    return;
                }
            }
        }
        if self.t_print && self.shard == 0 {
            eprintln!("  part {part}: {n} enumerated/shard {:.2}s", t0.elapsed().as_secs_f64());
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Run),
}

struct Finding {
    property: String,
    sig: String,
    what: String,
}

/// Lines `finding: property=<id> sig=<sig> <what fails>`; `fixed:` lines suppress nothing.
fn known_findings(root: &Path) -> Vec<Finding> {
    let text = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("finding: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (Some(p), Some(s), Some(w)) = (it.next(), it.next(), it.next()) else { continue };
        let Some(s) = s.strip_prefix("sig=") else { continue };
        out.push(Finding { property: p.into(), sig: s.into(), what: w.into() });
    }
    out
}

pub struct Opts {
    pub root: PathBuf,
    pub tier: String,
    pub seed: u64,
    pub replay: Option<PathBuf>,
    pub only: Option<String>,
    pub scale: f64,
    pub verbose: bool,
    pub nshards: u32,
}

#[cfg(feature = "tls")]
/// Where check.sh leaves what it builds besides the harness.
pub fn artifact(root: &Path) -> PathBuf {
    root.join("target/artifact")
}

fn new_run(o: &Opts, p: &Prop, shard: u32, isolate: bool, known: &[Finding]) -> Run {
    Run {
        heavy: 1,
        thorough: o.tier == "thorough",
        seed: o.seed,
        shard,
        nshards: o.nshards,
        isolate,
        known: known.iter().filter(|k| k.property == p.id).map(|k| k.sig.clone()).collect(),
        replay: None,
        replay_result: None,
        only: o.only.clone(),
        scale: o.scale,
        parts: BTreeMap::new(),
        hashes: HashSet::new(),
        violation: None,
        t_print: o.verbose,
        progress: shared_counter(),
        resume_at: 0,
    }
}

/// `resume_at`: `None` for a normal run, else the isolated rerun from that case.
fn shard_main(o: &Opts, p: &Prop, shard: u32, resume_at: Option<u64>, progress: *mut u64, known: &[Finding], dir: &Path) -> ! {
    let mut run = new_run(o, p, shard, resume_at.is_some(), known);
    run.progress = progress;
    run.resume_at = resume_at.unwrap_or(0);
    (p.run)(&mut run);
    let rep = ShardReport { parts: run.parts, violation: run.violation, done: true };
    let mut h = Vec::with_capacity(run.hashes.len() * 8);
    for x in &run.hashes {
        h.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(dir.join(format!("h{shard}")), h).expect("write shard hashes");
    std::fs::write(dir.join(format!("r{shard}.json")), serde_json::to_vec(&rep).unwrap()).expect("write shard report");
    unsafe { libc::_exit(0) }
}

fn spawn(o: &Opts, p: &Prop, shard: u32, resume_at: Option<u64>, progress: *mut u64, known: &[Finding], dir: &Path) -> i32 {
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        shard_main(o, p, shard, resume_at, progress, known, dir);
    }
    pid
}

/// How this program and the code under test are built.
pub const PROFILE: &str = if cfg!(debug_assertions) { "release" } else { "shipped" };

/// Runs one property; returns the process exit code.
pub fn run_property(o: &Opts, p: &Prop) -> i32 {
    let t0 = Instant::now();
    let known = known_findings(&o.root);
    #[cfg(feature = "tls")]
    crate::tls::remote::set_dir(artifact(&o.root));
    if let Some(path) = &o.replay {
        let v: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay JSON");
        // a case belongs to the build it failed with
        let profile = v["profile"].as_str().unwrap_or("release");
        if profile != PROFILE {
            use std::os::unix::process::CommandExt;
            let exe = o.root.join("target").join(profile).join("harness");
            let e = std::process::Command::new(&exe).arg(p.id).arg("--root").arg(&o.root).arg("--replay").arg(path).exec();
            eprintln!("harness: cannot run {}: {e}", exe.display());
            return 3;
        }
        let mut run = new_run(o, p, 0, true, &[]);
        run.replay = Some((v["part"].as_str().expect("part").to_string(), v["case"].clone()));
        (p.run)(&mut run);
        return match run.replay_result {
            None => {
                eprintln!("harness: no part of {} fits the replay file", p.id);
                2
            }
            Some(Ok(())) => {
                println!("replay of {}: the property holds on this case", path.display());
                0
            }
            Some(Err(e)) => {
                println!("replay failed [{}]: {}", e.sig, e.msg);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                1
            }
        };
    }

    let dir = o.root.join(".run").join(format!("{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let progress: Vec<*mut u64> = (0..o.nshards).map(|_| shared_counter()).collect();
    let pids: Vec<i32> = (0..o.nshards).map(|s| spawn(o, p, s, None, progress[s as usize], &known, &dir)).collect();
    let mut crashed = vec![];
    let mut error = false;
    for (s, pid) in pids.iter().enumerate() {
        let mut st = 0;
        unsafe { libc::waitpid(*pid, &mut st, 0) };
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP, libc::SIGPROF].contains(&sig) {
                crashed.push(s as u32);
            } else {
                eprintln!("harness: shard {s} ended by signal {sig}");
                error = true;
            }
        } else if libc::WEXITSTATUS(st) != 0 {
            eprintln!("harness: shard {s} exit status {}", libc::WEXITSTATUS(st));
            error = true;
        }
    }
    if !error {
        if let Some(&s) = crashed.first() {
            // One case killed the shard: find and shrink it with every case in a process of its own.
            let n = unsafe { *progress[s as usize] };
            eprintln!("harness: shard {s} died in its case {n}; going on from it with isolated cases");
            let pid = spawn(o, p, s, Some(n), shared_counter(), &known, &dir);
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                error = true;
            }
        }
    }
    let mut parts: BTreeMap<String, PartStats> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut violation = None;
    for s in 0..o.nshards {
        let Ok(b) = std::fs::read(dir.join(format!("r{s}.json"))) else {
            if !crashed.contains(&s) {
                error = true;
            }
            continue;
        };
        let rep: ShardReport = serde_json::from_slice(&b).expect("shard report");
        if !rep.done {
            error = true;
        }
        for (k, v) in rep.parts {
            let e = parts.entry(k).or_default();
            e.evaluations += v.evaluations;
            e.nontrivial += v.nontrivial;
            for (l, n) in v.labels {
                *e.labels.entry(l).or_default() += n;
            }
            for (l, n) in v.known {
                *e.known.entry(l).or_default() += n;
            }
            if e.samples.len() < 2 {
                e.samples.extend(v.samples);
                e.samples.truncate(2);
            }
        }
        for c in std::fs::read(dir.join(format!("h{s}"))).unwrap_or_default().chunks_exact(8) {
            distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
        if violation.is_none() {
            violation = rep.violation;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if violation.is_none() && !crashed.is_empty() {
        error = true; // a crash that did not reproduce: inconclusive
    }

    let evaluations: u64 = parts.values().map(|p| p.evaluations).sum();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for p in parts.values() {
        for (k, n) in &p.known {
            *known_hits.entry(k.clone()).or_default() += n;
        }
    }
    let samples: Vec<Value> = parts
        .iter()
        .flat_map(|(k, v)| v.samples.iter().map(move |s| json!({"part": k, "case": s})))
        .collect();
    let part_json: BTreeMap<&String, Value> = parts
        .iter()
        .map(|(k, v)| (k, json!({"evaluations": v.evaluations, "distinct_nontrivial": v.nontrivial, "labels": v.labels, "excluded_known_findings": v.known})))
        .collect();
    let evfile = o.root.join("evidence").join(format!("{}.json", p.id));
    let coverage = json!({
        "evaluations": evaluations,
        "distinct_nontrivial": distinct.len(),
        "rule": p.rule,
        "samples": samples,
        "parts": part_json,
    });
    let mut ev = json!({
        "property": p.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": coverage,
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u32,
    });
    if PROFILE != "release" {
        // added to what the run before it wrote
        if let Some(mut first) = std::fs::read(&evfile).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
            if let Value::Object(c) = &mut ev["coverage"] {
                c.remove("rule");
                c.remove("samples");
            }
            first["coverage"][PROFILE] = ev["coverage"].take();
            first["violations"] = json!(first["violations"].as_u64().unwrap_or(0) + violation.is_some() as u64);
            first["wall_s"] = json!(first["wall_s"].as_f64().unwrap_or(0.0) + t0.elapsed().as_secs_f64());
            ev = first;
        }
    }
    if o.only.is_none() && !error {
        std::fs::create_dir_all(evfile.parent().unwrap()).expect("evidence directory");
        std::fs::write(&evfile, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    if o.verbose {
        eprintln!("{}", serde_json::to_string_pretty(&ev["coverage"]).unwrap());
    }
    println!("{}{}: {} cases, {} distinct non-trivial, {:.1}s", p.id, if PROFILE == "release" { "" } else { " (as shipped)" }, evaluations, distinct.len(), t0.elapsed().as_secs_f64());

    if let Some(v) = violation {
        let rdir = o.root.join("replays");
        std::fs::create_dir_all(&rdir).expect("replay directory");
        let body = json!({"property": p.id, "part": v.part, "sig": v.sig, "msg": v.msg, "seed": o.seed, "profile": PROFILE, "case": v.case});
        let text = serde_json::to_string_pretty(&body).unwrap();
        let path = rdir.join(format!("{}-{:016x}.json", p.id, hash_bytes(text.as_bytes())));
        std::fs::write(&path, text).expect("replay file");
        println!("part {}: [{}] {}", v.part, v.sig, short(v.msg.clone(), 2000));
        println!("minimal case: {}", short(v.case.to_string(), 2000));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if error {
        eprintln!("harness: no verdict");
        return 3;
    }
    for k in known.iter().filter(|k| k.property == p.id) {
        // Only findings that still occur are listed; each is identified by its signature.
        if known_hits.contains_key(&k.sig) {
            println!("KNOWN-FINDING: property={} [{}] {}", p.id, k.sig, k.what);
        }
    }
    0
}
