//! Shared machinery of the property checks: deterministic proptest runs split over shards,
//! accounting of what was generated, shrinking to a JSON replay file, evidence and known findings.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet, hash_map::DefaultHasher},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::{AssertUnwindSafe, catch_unwind},
    path::PathBuf,
    sync::{
        Mutex,
        atomic::{AtomicBool, Ordering},
    },
    time::Instant,
};

pub use proptest;
use proptest::{
    strategy::Strategy,
    test_runner::{
        Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
    },
};
use serde::{Serialize, de::DeserializeOwned};

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// What a test function tells the framework about the case it just ran.
#[derive(Default)]
pub struct Obs {
    labels: BTreeMap<&'static str, u64>,
    nontrivial: bool,
    reject: bool,
}

impl Obs {
    /// Count an interesting class the case belongs to.
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    /// The case is non-trivial by the facet's stated rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

/// A failed oracle. `sig` identifies the root cause closely enough to be listed as a known finding.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: Option<String>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { sig: None, msg: msg.to_string() }
    }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr) => {
        if !($c) {
            return Err($crate::Fail::from(format!("line {}: not true: {}", line!(), stringify!($c))));
        }
    };
    ($c:expr, $($f:tt)*) => {
        if !($c) {
            return Err($crate::Fail::from(format!("line {}: {}", line!(), format!($($f)*))));
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr $(, $($f:tt)*)?) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err($crate::Fail::from(format!(
                "line {}: {} != {}: {:?} vs {:?} {}",
                line!(), stringify!($a), stringify!($b), a, b, String::new() $( + &format!($($f)*))?
            )));
        }
    }};
}
#[macro_export]
macro_rules! fail {
    ($($f:tt)*) => { return Err($crate::Fail::from(format!("line {}: {}", line!(), format!($($f)*)))) };
}

#[derive(Default)]
struct FacetStats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
}

impl FacetStats {
    fn merge(&mut self, o: FacetStats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        if self.samples.len() < 3 {
            self.samples.extend(o.samples);
            self.samples.truncate(3);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    facet: String,
    input: serde_json::Value,
    msg: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

enum Mode {
    Run,
    Replay { facet: String, input: serde_json::Value, done: bool },
}

pub struct Runner {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    mode: Mode,
    only: Option<String>,
    facets: Vec<(String, String, FacetStats)>,
    violations: Vec<Violation>,
    known_sigs: Vec<(String, String)>,
    start: Instant,
    pub verbose: bool,
}

/// Where each shard leaves the case it is running, so that a crash or a hang of the process can be
/// pinned on it by the supervising parent process.
mod flight {
    use std::{
        fs::File,
        os::unix::fs::FileExt,
        path::PathBuf,
        sync::atomic::{AtomicU64, Ordering},
        time::Instant,
    };
    pub const SHARDS: usize = 64;
    pub const HANG_CODE: i32 = 77;
    pub static STARTED: [AtomicU64; SHARDS] = [const { AtomicU64::new(0) }; SHARDS];
    static EPOCH: std::sync::LazyLock<Instant> = std::sync::LazyLock::new(Instant::now);

    pub fn dir() -> Option<PathBuf> {
        std::env::var_os("VERIF_CHILD").map(PathBuf::from)
    }
    pub struct Recorder {
        shard: usize,
        file: Option<File>,
        facet: String,
    }
    impl Recorder {
        pub fn new(shard: u32, facet: &str) -> Recorder {
            let shard = shard as usize % SHARDS;
            let file = dir().and_then(|d| File::create(d.join(format!("case-{shard}"))).ok());
            Recorder { shard, file, facet: facet.into() }
        }
        pub fn begin(&self, json: &str) {
            if let Some(f) = &self.file {
                let mut b = Vec::with_capacity(json.len() + 64);
                let head = format!("{}\n{}\n", self.facet, json.len());
                b.extend_from_slice(head.as_bytes());
                b.extend_from_slice(json.as_bytes());
                let _ = f.write_all_at(&b, 0);
            }
            let now = EPOCH.elapsed().as_secs() + 1;
            STARTED[self.shard].store(now, Ordering::SeqCst);
        }
        pub fn end(&self) {
            STARTED[self.shard].store(0, Ordering::SeqCst);
        }
    }
    impl Drop for Recorder {
        fn drop(&mut self) {
            if let (Some(f), Some(d)) = (&self.file, dir()) {
                let _ = f.set_len(0);
                let _ = std::fs::remove_file(d.join(format!("case-{}", self.shard)));
            }
        }
    }
    pub fn read_cases(dir: &std::path::Path) -> Vec<(usize, String, serde_json::Value)> {
        let mut out = vec![];
        for shard in 0..SHARDS {
            let Ok(b) = std::fs::read(dir.join(format!("case-{shard}"))) else { continue };
            let mut it = b.splitn(3, |c| *c == b'\n');
            let (Some(f), Some(n), Some(rest)) = (it.next(), it.next(), it.next()) else { continue };
            let Some(n) = std::str::from_utf8(n).ok().and_then(|n| n.parse::<usize>().ok()) else {
                continue;
            };
            if rest.len() < n {
                continue;
            }
            if let Ok(v) = serde_json::from_slice(&rest[..n]) {
                out.push((shard, String::from_utf8_lossy(f).into_owned(), v));
            }
        }
        out
    }
    /// Ends the process if one case runs for longer than `limit` seconds.
    pub fn watch(limit: u64) {
        let _ = EPOCH.elapsed();
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let now = EPOCH.elapsed().as_secs() + 1;
                for (shard, s) in STARTED.iter().enumerate() {
                    let s = s.load(Ordering::SeqCst);
                    if s != 0 && now > s + limit {
                        if let Some(d) = dir() {
                            let _ = std::fs::write(d.join("hang"), format!("{shard}"));
                        }
                        unsafe { libc::_exit(HANG_CODE) };
                    }
                }
            }
        });
    }
}

/// How much work a facet does.
#[derive(Clone, Copy)]
pub struct Work {
    pub quick: u32,
    pub thorough: u32,
    pub shards: u32,
}
/// `quick` cases at the quick tier, ten times that at the thorough one, over 8 threads.
pub fn par(quick: u32) -> Work {
    Work { quick, thorough: quick.saturating_mul(10), shards: 8 }
}
/// As `par`, for cases which mostly wait.
pub fn waiting(quick: u32) -> Work {
    Work { quick, thorough: quick.saturating_mul(10), shards: 48 }
}
/// As `par`, in one thread (for code under test that has process-wide state).
pub fn seq(quick: u32) -> Work {
    Work { quick, thorough: quick.saturating_mul(10), shards: 1 }
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn trunc(s: String, n: usize) -> String {
    if s.len() <= n {
        return s;
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

/// Runs `f`, turning a panic of the code under test into a failure.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let text = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            Err(Fail { sig: None, msg: format!("panicked: {text} at {loc}") })
        }
    }
}

impl Runner {
    /// One facet of the property: `test` must hold for every value of the strategy.
    /// `rule` says how cases are made and what makes one non-trivial.
    pub fn facet<S, T, F>(
        &mut self,
        name: &str,
        rule: &str,
        work: Work,
        strategy: impl Fn() -> S + Sync,
        test: F,
    ) where
        S: Strategy<Value = T>,
        T: Serialize + DeserializeOwned + Debug + Clone,
        F: Fn(&T, &mut Obs) -> Res + Sync,
    {
        if let Mode::Replay { facet, input, done } = &mut self.mode {
            if facet == name {
                *done = true;
                let v: T = serde_json::from_value(input.clone()).expect("replay input does not parse");
                let mut obs = Obs::default();
                let fr = flight::Recorder::new(0, name);
                fr.begin(&input.to_string());
                let res = guarded(|| test(&v, &mut obs));
                fr.end();
                if let Err(f) = res {
                    println!("replay of {name} fails: {}", f.msg);
                    self.violations.push(Violation {
                        facet: name.into(),
                        input: input.clone(),
                        msg: f.msg,
                    });
                } else {
                    println!("replay of {name} passes");
                }
            }
            return;
        }
        if let Some(o) = &self.only
            && !name.contains(o.as_str())
        {
            return;
        }
        let t0 = Instant::now();
        let cases = match self.tier {
            Tier::Quick => work.quick,
            Tier::Thorough => work.thorough,
        };
        let shards = work.shards.min(cases).max(1);
        let stop = AtomicBool::new(false);
        let merged: Mutex<(FacetStats, Vec<(u32, Violation)>)> = Default::default();
        let known_sigs = &self.known_sigs;
        let (id, seed, strategy, test, stop_ref, merged_ref) =
            (self.id, self.seed, &strategy, &test, &stop, &merged);
        std::thread::scope(|sc| {
            for shard in 0..shards {
                let b = std::thread::Builder::new()
                    .name(format!("{id}-{name}-{shard}"))
                    .stack_size(64 << 20);
                b.spawn_scoped(sc, move || {
                    let n = cases / shards + u32::from(shard < cases % shards);
                    let mut key = [0u8; 32];
                    for (i, c) in key.chunks_mut(8).enumerate() {
                        c.copy_from_slice(
                            &hash_of(&(seed, id, name, shard, i as u64)).to_le_bytes(),
                        );
                    }
                    let fr = flight::Recorder::new(shard, name);
                    let stats = RefCell::new(FacetStats::default());
                    let failed = RefCell::new(None::<Fail>);
                    let config = Config {
                        cases: n,
                        failure_persistence: None,
                        max_shrink_iters: 20_000,
                        max_shrink_time: 60_000,
                        max_global_rejects: n.saturating_mul(4).max(1024),
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new_with_rng(
                        config,
                        TestRng::from_seed(RngAlgorithm::ChaCha, &key),
                    );
                    let r = runner.run(&strategy(), |v: T| {
                        if stop_ref.load(Ordering::Relaxed) && failed.borrow().is_none() {
                            return Ok(());
                        }
                        let mut obs = Obs::default();
                        let js = serde_json::to_string(&v).unwrap_or_default();
                        fr.begin(&js);
                        let res = guarded(|| test(&v, &mut obs));
                        fr.end();
                        if obs.reject {
                            return Err(TestCaseError::reject("precondition"));
                        }
                        let mut st = stats.borrow_mut();
                        st.evaluations += 1;
                        for (k, n) in &obs.labels {
                            *st.labels.entry(k).or_default() += n;
                        }
                        if obs.nontrivial {
                            if st.nontrivial.insert(hash_of(&js)) && st.samples.len() < 2 {
                                st.samples.push(trunc(js, 600));
                            }
                        }
                        match res {
                            Ok(()) => Ok(()),
                            Err(f) => {
                                if let Some(sig) = &f.sig
                                    && known_sigs.iter().any(|(k, _)| k == sig)
                                {
                                    *st.known.entry(sig.clone()).or_default() += 1;
                                    return Ok(());
                                }
                                *failed.borrow_mut() = Some(f.clone());
                                // The other shards need not go on, unless they have to shrink theirs.
                                stop_ref.store(true, Ordering::Relaxed);
                                Err(TestCaseError::fail(f.msg))
                            }
                        }
                    });
                    let violation = match r {
                        Ok(()) => None,
                        Err(TestError::Fail(_, v)) => {
                            // Re-run the minimal case to get its own message.
                            let msg = match guarded(|| test(&v, &mut Obs::default())) {
                                Err(f) => f.msg,
                                Ok(()) => format!(
                                    "(did not fail again on re-run) {}",
                                    failed.borrow().as_ref().map(|f| f.msg.clone()).unwrap_or_default()
                                ),
                            };
                            Some(Violation {
                                facet: name.into(),
                                input: serde_json::to_value(&v).unwrap(),
                                msg,
                            })
                        }
                        Err(TestError::Abort(why)) => {
                            eprintln!("{id}/{name}: generator gave up: {why}");
                            std::process::exit(4);
                        }
                    };
                    let mut out = merged_ref.lock().unwrap();
                    out.1.extend(violation.map(|v| (shard, v)));
                    out.0.merge(stats.into_inner());
                })
                .expect("thread");
            }
        });
        let (stats, mut viol) = merged.into_inner().unwrap();
        viol.sort_by_key(|(s, v)| (v.input.to_string().len(), *s));
        if self.verbose {
            println!(
                "  {}/{name}: {} cases, {} distinct non-trivial, {:.1}s {:?}",
                self.id,
                stats.evaluations,
                stats.nontrivial.len(),
                t0.elapsed().as_secs_f64(),
                stats.labels
            );
        }
        if let Some((_, v)) = viol.into_iter().next() {
            self.violations.push(v);
        }
        self.facets.push((name.to_string(), rule.to_string(), stats));
    }
}

/// Silences panics of the code under test (they are reported as failures) but keeps their location.
fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("{info}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let text = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if let Some(d) = flight::dir() {
            // Only read by the parent if the process dies.
            if !(text.contains("cannot unwind") && d.join("panic").exists()) {
                let _ = std::fs::write(d.join("panic"), format!("{text} at {loc}"));
            }
        }
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = Some(loc));
    }));
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        // known: property=<id> sig=<signature> <what fails>
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (p, sig, what) = (it.next(), it.next(), it.next());
        if p == Some(id)
            && let Some(sig) = sig.and_then(|s| s.strip_prefix("sig="))
        {
            out.push((sig.to_string(), what.unwrap_or("").to_string()));
        }
    }
    out
}

pub type PropFn = fn(&mut Runner);

fn write_replay(id: &str, facet: &str, msg: &str, input: &serde_json::Value) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = serde_json::json!({
        "property": id, "facet": facet, "message": msg, "input": input,
    });
    let path = dir.join(format!("{id}-{facet}-{:016x}.json", hash_of(&input.to_string())));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    path
}

/// How a child process ended, if not by itself.
#[derive(Clone, PartialEq, Debug)]
enum Death {
    Signal(i32),
    Hang,
}
fn run_child(args: &[String], dir: &std::path::Path, quiet: bool) -> Result<i32, Death> {
    use std::os::unix::process::ExitStatusExt;
    let mut c = std::process::Command::new(std::env::current_exe().expect("own path"));
    c.args(args).env("VERIF_CHILD", dir);
    if quiet {
        c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    let st = c.status().expect("child process");
    if let Some(s) = st.signal() {
        return Err(Death::Signal(s));
    }
    match st.code() {
        Some(c) if c == flight::HANG_CODE => Err(Death::Hang),
        c => Ok(c.unwrap_or(5)),
    }
}

/// Smaller variants of a JSON value, biggest reductions first.
fn smaller(v: &serde_json::Value) -> Vec<serde_json::Value> {
    use serde_json::Value as V;
    let mut out = vec![];
    match v {
        V::Array(a) => {
            let mut n = a.len();
            while n > 0 {
                let mut i = 0;
                while i < a.len() {
                    let mut b = a.clone();
                    b.drain(i..(i + n).min(a.len()));
                    out.push(V::Array(b));
                    i += n;
                }
                n /= 2;
            }
            for (i, x) in a.iter().enumerate() {
                for y in smaller(x) {
                    let mut b = a.clone();
                    b[i] = y;
                    out.push(V::Array(b));
                }
            }
        }
        V::Object(m) => {
            for (k, x) in m {
                for y in smaller(x) {
                    let mut b = m.clone();
                    b.insert(k.clone(), y);
                    out.push(V::Object(b));
                }
            }
        }
        V::Number(n) => {
            if let Some(n) = n.as_u64().filter(|n| *n > 0) {
                out.push(V::from(0u64));
                out.push(V::from(n / 2));
            }
        }
        V::String(t) if !t.is_empty() => out.push(V::from("")),
        _ => {}
    }
    out
}

/// Runs the check in a child process; a crash or a hang of the child is traced to a case.
fn supervise(args: &[String], id: &str) -> ! {
    let dir = std::env::temp_dir().join(format!("rrverif-{}-{id}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let done = |code: i32| -> ! {
        let _ = std::fs::remove_dir_all(&dir);
        std::process::exit(code)
    };
    let death = match run_child(&args[1..], &dir, false) {
        Ok(code) => done(code),
        Err(d) => d,
    };
    let cases = flight::read_cases(&dir);
    let panic = std::fs::read_to_string(dir.join("panic")).unwrap_or_default();
    let hung: Option<usize> =
        std::fs::read_to_string(dir.join("hang")).ok().and_then(|s| s.parse().ok());
    println!("the process under test ended with {death:?} {panic}");
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        done(1);
    }
    let sub = dir.join("replay");
    std::fs::create_dir_all(&sub).expect("scratch directory");
    let reproduces = |facet: &str, input: &serde_json::Value| -> bool {
        let f = sub.join("input.json");
        let body = serde_json::json!({"property": id, "facet": facet, "input": input});
        std::fs::write(&f, body.to_string()).expect("scratch file");
        let a = ["replay".to_string(), f.display().to_string()];
        run_child(&a, &sub, true).is_err()
    };
    let mut pick = None;
    for (shard, facet, input) in &cases {
        if hung.is_none_or(|h| h == *shard) && reproduces(facet, input) {
            pick = Some((facet.clone(), input.clone()));
            break;
        }
    }
    let Some((facet, mut input)) = pick else {
        if death == Death::Hang || death == Death::Signal(9) || cases.is_empty() {
            eprintln!("{id}: {death:?} could not be reproduced");
            done(3);
        }
        // A crash that needs more than its last case.
        let (_, facet, input) = &cases[0];
        let msg = format!("the process ended with {death:?} ({panic}); not by this case alone");
        println!("{id}/{facet}: {msg}");
        println!("VIOLATION property={id} replay={}", write_replay(id, facet, &msg, input).display());
        done(1)
    };
    let start = Instant::now();
    if death != Death::Hang {
        'outer: loop {
            for s in smaller(&input) {
                if start.elapsed().as_secs() > 45 {
                    break 'outer;
                }
                if reproduces(&facet, &s) {
                    input = s;
                    continue 'outer;
                }
            }
            break;
        }
    }
    let msg = match &death {
        Death::Hang => "does not come to an end".to_string(),
        d => format!("the process ended with {d:?}: {panic}"),
    };
    println!("{id}/{facet}: {msg}");
    println!("  minimal input: {}", trunc(input.to_string(), 2000));
    println!("VIOLATION property={id} replay={}", write_replay(id, &facet, &msg, &input).display());
    done(1)
}

/// Entry point of a check binary.
pub fn main(props: &[(&'static str, PropFn)]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: {} run <ID> [quick|thorough] [facet] | replay <file> | list", args[0]);
        std::process::exit(2)
    };
    install_panic_hook();
    if flight::dir().is_none() && std::env::var_os("VERIF_NOFORK").is_none() {
        match args.get(1).map(|s| s.as_str()) {
            Some("run") => supervise(&args, &args.get(2).cloned().unwrap_or_default()),
            Some("replay") => supervise(&args, "replay"),
            _ => {}
        }
    }
    if flight::dir().is_some() {
        // Die with the parent.
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        let limit = std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok());
        flight::watch(limit.unwrap_or(60));
    }
    // A hang is an error of the run, never a violation.
    let limit: u64 = std::env::var("VERIF_WATCHDOG").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    if limit > 0 {
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(limit));
            eprintln!("watchdog: no answer within {limit} s");
            std::process::exit(3);
        });
    }
    let (id, mode, tier, only) = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (id, _) in props {
                println!("{id}");
            }
            std::process::exit(0)
        }
        Some("run") => {
            let id = args.get(2).cloned().unwrap_or_else(|| usage());
            let tier = args
                .get(3)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
            (id, Mode::Run, tier, args.get(4).cloned())
        }
        Some("replay") => {
            let f = args.get(2).cloned().unwrap_or_else(|| usage());
            let v: serde_json::Value =
                serde_json::from_slice(&std::fs::read(&f).expect("replay file")).expect("JSON");
            (
                v["property"].as_str().unwrap().to_string(),
                Mode::Replay {
                    facet: v["facet"].as_str().unwrap().to_string(),
                    input: v["input"].clone(),
                    done: false,
                },
                Tier::Quick,
                None,
            )
        }
        _ => usage(),
    };
    let Some((id, f)) = props.iter().find(|(p, _)| *p == id) else {
        eprintln!("no such property here: {id}");
        std::process::exit(2)
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let mut r = Runner {
        id,
        tier,
        seed,
        mode,
        only,
        facets: vec![],
        violations: vec![],
        known_sigs: known_findings(id),
        start: Instant::now(),
        verbose: true,
    };
    f(&mut r);
    if let Mode::Replay { done, .. } = r.mode {
        if !done {
            eprintln!("no such facet");
            std::process::exit(2);
        }
        std::process::exit(i32::from(!r.violations.is_empty()));
    }
    write_evidence(&r);
    for (name, _, st) in &r.facets {
        for (sig, n) in &st.known {
            let what = &r.known_sigs.iter().find(|(s, _)| s == sig).unwrap().1;
            println!("KNOWN-FINDING: property={id} {what} [{name}: {n} cases]");
        }
    }
    let mut code = 0;
    for v in &r.violations {
        let path = write_replay(id, &v.facet, &v.msg, &v.input);
        println!("{id}/{}: {}", v.facet, trunc(v.msg.clone(), 2000));
        println!("  minimal input: {}", trunc(v.input.to_string(), 2000));
        println!("VIOLATION property={id} replay={}", path.display());
        code = 1;
    }
    if code == 0 {
        println!("{id}: held on everything explored ({:.1}s)", r.start.elapsed().as_secs_f64());
    }
    use std::io::Write as _;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

fn write_evidence(r: &Runner) {
    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut facets = serde_json::Map::new();
    let mut samples = vec![];
    let mut rules = vec![];
    for (name, rule, st) in &r.facets {
        evaluations += st.evaluations;
        nontrivial += st.nontrivial.len();
        rules.push(format!("{name}: {rule}"));
        for s in &st.samples {
            samples.push(serde_json::json!({"facet": name, "input": s}));
        }
        facets.insert(
            name.clone(),
            serde_json::json!({
                "evaluations": st.evaluations,
                "distinct_nontrivial": st.nontrivial.len(),
                "classes": st.labels,
            }),
        );
    }
    let ev = serde_json::json!({
        "property": r.id,
        "tier": if r.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": r.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": rules.join(" | "),
            "samples": samples,
            "facets": facets,
        },
        "wall_s": r.start.elapsed().as_secs_f64(),
        "violations": r.violations.len(),
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", r.id)), serde_json::to_string_pretty(&ev).unwrap())
        .expect("evidence");
}
