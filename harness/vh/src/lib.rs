//! Driver for the property checks: deterministic generation (proptest), execution of every case
//! in a forked child (so that aborts and memory faults of the code under test are observed instead
//! of taking the harness down), shrinking, replay files, evidence and known findings.

use proptest::{
    strategy::{BoxedStrategy, Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    io::{Read, Write},
    os::fd::{FromRawFd, RawFd},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::Mutex,
    time::{Duration, Instant},
};

pub use proptest;
pub use serde_json;
pub mod prelude {
    pub use crate::{ensure, ensure_eq, fail, Facet, Failure, Finding, Out, Property, Tier};
    pub use proptest::prelude::*;
    pub use serde::{Deserialize, Serialize};
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one executed case was. `tags` are counted in the evidence.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Out {
    pub nontrivial: bool,
    pub tags: Vec<String>,
}

impl Out {
    pub fn new(nontrivial: bool) -> Self {
        Out { nontrivial, tags: vec![] }
    }
    pub fn tag<S: Into<String>>(mut self, s: S) -> Self {
        self.tags.push(s.into());
        self
    }
    pub fn tag_if<S: Into<String>>(self, c: bool, s: S) -> Self {
        if c {
            self.tag(s)
        } else {
            self
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
}

impl Failure {
    pub fn new<A: Into<String>, B: Into<String>>(sig: A, msg: B) -> Self {
        Failure { sig: sig.into(), msg: msg.into() }
    }
}

pub type R<T> = Result<T, Failure>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::Failure::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => { if !($c) { return Err($crate::Failure::new($sig, format!($($arg)*))) } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Failure::new($sig, format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)));
        }
    }};
}

/// One family of generated cases of a property.
pub struct Facet<C> {
    pub name: &'static str,
    pub rule: &'static str,
    /// (quick, thorough) number of cases
    pub cases: (u64, u64),
    /// cases executed per forked child
    pub batch: u64,
    /// the outcome may depend on thread scheduling: shrink candidates and replays are retried
    pub racy: bool,
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub run: fn(&C) -> R<Out>,
}

pub trait DynFacet {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn worker(&self, ctx: &Ctx, w: u64, nw: u64, out: &mut dyn Write);
    fn replay(&self, case: &Value) -> R<Out>;
}

/// A fixed input on which the code is known (and recorded in known_findings.json) to break the property.
pub struct Finding {
    pub sig: &'static str,
    pub run: fn() -> R<()>,
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub facets: Vec<Box<dyn DynFacet>>,
    pub findings: Vec<Finding>,
}

#[derive(Clone)]
pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub scale: f64,
    pub deadline: Instant,
    pub known: HashSet<String>,
}

// ---------------------------------------------------------------------------------------------
// scratch space

static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);

/// Root of this run's scratch space (created by the driver, removed by it).
pub fn scratch() -> PathBuf {
    SCRATCH.lock().unwrap().clone().expect("scratch dir")
}

/// A fresh empty directory for the current process.
pub struct TempDir(pub PathBuf);
impl TempDir {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = scratch().join(format!("t{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("create scratch dir");
        TempDir(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Default for TempDir {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------------------------------------
// panics

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let payload = info.payload();
        let m = payload
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| payload.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("panic: {m} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{m} at {loc}");
        }
    }));
}

pub fn take_panic() -> String {
    LAST_PANIC.lock().map(|mut g| std::mem::take(&mut *g)).unwrap_or_default()
}

/// Runs `f`; a panic inside becomes `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

// ---------------------------------------------------------------------------------------------
// forked execution

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Res {
    Ok(Out),
    Fail(Failure),
}

enum ChildEnd {
    Clean,
    Signal(i32),
    Exit(i32),
    Hang,
    /// every thread slept for BLOCKED without using the processor: a deadlock
    Blocked,
    /// one case used more than SPIN processor time
    Spin,
}

const BLOCKED: Duration = Duration::from_secs(25);
const SPIN: f64 = 60.0;

/// (processor time in seconds, all threads asleep and no child processes) of a child of this process
fn proc_state(pid: i32) -> Option<(f64, bool)> {
    let st = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = st.rsplit(')').next()?.split_whitespace().collect();
    let ticks: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
    let mut asleep = true;
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let t = t.ok()?.path();
        let s = std::fs::read_to_string(t.join("stat")).ok()?;
        asleep &= s.rsplit(')').next()?.split_whitespace().next()? == "S";
        asleep &= std::fs::read_to_string(t.join("children")).map(|c| c.trim().is_empty()).unwrap_or(true);
    }
    Some((ticks as f64 / hz, asleep))
}

fn pipe() -> (RawFd, RawFd) {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0, "pipe");
    (fds[0], fds[1])
}

fn quiet_fds() {
    if std::env::var_os("VH_TRACE").is_some() {
        return;
    }
    unsafe {
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
        if n >= 0 {
            libc::dup2(n, 1);
            libc::dup2(n, 2);
        }
    }
}

/// Runs `f` in a forked child that writes to a pipe; returns what it wrote and how it ended.
/// `stall`: no output for that long => the child is killed and the end is `Hang`.
fn forked(f: impl FnOnce(&mut dyn Write), stall: Duration) -> (Vec<u8>, ChildEnd) {
    let (r, w) = pipe();
    let _ = std::io::stdout().flush();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::close(r);
            libc::setpgid(0, 0);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
        }
        quiet_fds();
        {
            let mut out = unsafe { std::fs::File::from_raw_fd(w) };
            f(&mut out);
            let _ = out.flush();
        }
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(w) };
    let mut buf = Vec::new();
    let mut tmp = [0u8; 65536];
    let mut rd = unsafe { std::fs::File::from_raw_fd(r) };
    let mut last = Instant::now();
    let mut hang = false;
    let mut special = None;
    let mut cpu0 = 0.0;
    let mut asleep_since: Option<(Instant, f64)> = None;
    loop {
        let mut p = libc::pollfd { fd: r, events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut p, 1, 1000) };
        if n > 0 {
            match rd.read(&mut tmp) {
                Ok(0) => break,
                Ok(k) => {
                    buf.extend_from_slice(&tmp[..k]);
                    last = Instant::now();
                    asleep_since = None;
                    cpu0 = proc_state(pid).map(|x| x.0).unwrap_or(cpu0);
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        } else if last.elapsed() > stall || {
            if last.elapsed() > Duration::from_secs(2) {
                if let Some((cpu, asleep)) = proc_state(pid) {
                    if cpu - cpu0 > SPIN {
                        special = Some(ChildEnd::Spin);
                    }
                    match asleep_since {
                        Some((t, c)) if asleep && cpu - c < 0.05 => {
                            if t.elapsed() > BLOCKED {
                                special = Some(ChildEnd::Blocked);
                            }
                        }
                        _ if asleep => asleep_since = Some((Instant::now(), cpu)),
                        _ => asleep_since = None,
                    }
                }
            }
            special.is_some()
        } {
            hang = true;
            unsafe {
                libc::kill(-pid, libc::SIGKILL);
                libc::kill(pid, libc::SIGKILL);
            }
            break;
        }
    }
    drop(rd);
    let mut st = 0i32;
    // A child that closed its pipe but does not exit is also a hang.
    let t = Instant::now();
    loop {
        let k = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if k == pid {
            break;
        }
        if k < 0 {
            break;
        }
        if t.elapsed() > stall {
            hang = true;
            unsafe {
                libc::kill(-pid, libc::SIGKILL);
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            break;
        }
        std::thread::sleep(Duration::from_micros(if t.elapsed().as_millis() < 5 { 50 } else { 2000 }));
    }
    let end = if let Some(e) = special {
        e
    } else if hang {
        ChildEnd::Hang
    } else if libc::WIFSIGNALED(st) {
        ChildEnd::Signal(libc::WTERMSIG(st))
    } else if libc::WEXITSTATUS(st) != 0 {
        ChildEnd::Exit(libc::WEXITSTATUS(st))
    } else {
        ChildEnd::Clean
    };
    (buf, end)
}

pub fn signal_name(s: i32) -> String {
    match s {
        libc::SIGSEGV => "SIGSEGV".into(),
        libc::SIGABRT => "SIGABRT".into(),
        libc::SIGBUS => "SIGBUS".into(),
        libc::SIGILL => "SIGILL".into(),
        libc::SIGFPE => "SIGFPE".into(),
        libc::SIGTRAP => "SIGTRAP".into(),
        libc::SIGKILL => "SIGKILL".into(),
        n => format!("signal {n}"),
    }
}

/// How a piece of code run in a forked child ended; for oracles about memory protection.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ProbeEnd {
    Exit(Vec<u8>),
    Signal(i32),
    Panic(String),
}

/// Runs `f` in a forked child and reports its output bytes or the signal that ended it.
pub fn probe(f: impl FnOnce() -> Vec<u8>) -> ProbeEnd {
    let (buf, end) = forked(
        |w| {
            let r = catch_unwind(AssertUnwindSafe(f));
            match r {
                Ok(v) => {
                    let _ = w.write_all(&[0]);
                    let _ = w.write_all(&v);
                }
                Err(_) => {
                    let _ = w.write_all(&[1]);
                    let _ = w.write_all(take_panic().as_bytes());
                }
            }
        },
        Duration::from_secs(60),
    );
    match end {
        ChildEnd::Signal(s) => ProbeEnd::Signal(s),
        ChildEnd::Hang | ChildEnd::Blocked | ChildEnd::Spin => ProbeEnd::Signal(libc::SIGKILL),
        ChildEnd::Exit(c) => ProbeEnd::Panic(format!("exit {c}")),
        ChildEnd::Clean => match buf.split_first() {
            Some((0, rest)) => ProbeEnd::Exit(rest.to_vec()),
            Some((_, rest)) => ProbeEnd::Panic(String::from_utf8_lossy(rest).into_owned()),
            None => ProbeEnd::Panic("no output".into()),
        },
    }
}

// ---------------------------------------------------------------------------------------------
// messages from workers to the master

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Msg {
    Stats {
        evals: u64,
        nontrivial: Vec<u64>,
        tags: BTreeMap<String, u64>,
        samples: Vec<Value>,
        cut: bool,
    },
    Fail {
        facet: String,
        index: u64,
        failure: Failure,
        case: Value,
        shrunk_execs: u64,
    },
    Error(String),
}

fn hash_str(s: &str) -> u64 {
    // FNV-1a; stable between runs
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn rng_for(ctx: &Ctx, facet: &str, index: u64) -> TestRng {
    let mut seed = [0u8; 32];
    seed[..8].copy_from_slice(&ctx.seed.to_le_bytes());
    seed[8..16].copy_from_slice(&hash_str(ctx.prop).to_le_bytes());
    seed[16..24].copy_from_slice(&hash_str(facet).to_le_bytes());
    seed[24..].copy_from_slice(&index.to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &seed)
}

const STALL: Duration = Duration::from_secs(150);

impl<C> Facet<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    pub fn boxed(self) -> Box<dyn DynFacet> {
        Box::new(self)
    }

    fn tree(&self, ctx: &Ctx, index: u64) -> Box<dyn ValueTree<Value = C>> {
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, rng_for(ctx, self.name, index));
        (self.strategy)(ctx.tier).new_tree(&mut runner).expect("strategy must not reject")
    }

    fn run_caught(&self, c: &C) -> Res {
        match catch_unwind(AssertUnwindSafe(|| (self.run)(c))) {
            Ok(Ok(o)) => Res::Ok(o),
            Ok(Err(f)) => Res::Fail(f),
            Err(_) => Res::Fail(Failure::new("panic", take_panic())),
        }
    }

    /// Executes the cases in one child, stopping after the first failure. Returns the results of
    /// the executed cases, or an error text when nothing can be concluded.
    fn exec(&self, cases: &[C]) -> Result<Vec<Res>, String> {
        let (buf, end) = forked(
            |w| {
                for c in cases {
                    let r = self.run_caught(c);
                    let stop = matches!(r, Res::Fail(_));
                    let mut line = serde_json::to_vec(&r).unwrap();
                    line.push(b'\n');
                    let _ = w.write_all(&line);
                    if stop {
                        break;
                    }
                }
            },
            STALL,
        );
        let mut v: Vec<Res> = Vec::new();
        for line in buf.split(|b| *b == b'\n') {
            if line.is_empty() {
                continue;
            }
            match serde_json::from_slice(line) {
                Ok(r) => v.push(r),
                Err(_) => break,
            }
        }
        match end {
            ChildEnd::Clean => {
                if v.len() != cases.len() && !matches!(v.last(), Some(Res::Fail(_))) {
                    return Err(format!("{}: child lost results", self.name));
                }
            }
            ChildEnd::Signal(s) if s == libc::SIGKILL || s == libc::SIGTERM => {
                return Err(format!("{}: child was ended by {}", self.name, signal_name(s)));
            }
            ChildEnd::Signal(s) => {
                if !matches!(v.last(), Some(Res::Fail(_))) {
                    v.push(Res::Fail(Failure::new(
                        format!("crash:{}", signal_name(s)),
                        format!("the process was ended by {}", signal_name(s)),
                    )));
                }
            }
            ChildEnd::Exit(c) => return Err(format!("{}: child exited with {c}", self.name)),
            ChildEnd::Blocked | ChildEnd::Spin => {
                let blocked = matches!(end, ChildEnd::Blocked);
                if !matches!(v.last(), Some(Res::Fail(_))) {
                    v.push(Res::Fail(if blocked {
                        Failure::new("deadlock", format!("blocked: every thread slept for {BLOCKED:?} without using the processor"))
                    } else {
                        Failure::new("no-termination", format!("one case used more than {SPIN} s of processor time"))
                    }));
                }
            }
            ChildEnd::Hang => {
                if !matches!(v.last(), Some(Res::Fail(_))) {
                    return Err(format!("{}: no progress for {:?} in case {}", self.name, STALL, v.len()));
                }
            }
        }
        Ok(v)
    }

    fn exec_one(&self, c: &C) -> Result<Option<Failure>, String> {
        let tries = if self.racy { 12 } else { 1 };
        for _ in 0..tries {
            let v = self.exec(std::slice::from_ref(c))?;
            if let Some(Res::Fail(f)) = v.into_iter().last() {
                return Ok(Some(f));
            }
        }
        Ok(None)
    }

    fn shrink(&self, ctx: &Ctx, index: u64, first: Failure) -> (C, Failure, u64) {
        let mut tree = self.tree(ctx, index);
        let mut best = (tree.current(), first);
        let mut execs = 0u64;
        let t = Instant::now();
        let max_t = Duration::from_secs(45);
        // confirm in isolation
        match self.exec_one(&best.0) {
            Ok(Some(f)) => best.1 = f,
            _ => return (best.0, best.1, 1),
        }
        if !tree.simplify() {
            return (best.0, best.1, execs);
        }
        while execs < 400 && t.elapsed() < max_t {
            execs += 1;
            let c = tree.current();
            let r = self.exec_one(&c);
            let failed = match r {
                Ok(Some(f)) if !ctx.known.contains(&f.sig) => {
                    best = (c, f);
                    true
                }
                _ => false,
            };
            let more = if failed { tree.simplify() } else { tree.complicate() };
            if !more {
                break;
            }
        }
        (best.0, best.1, execs)
    }
}

fn trunc(v: &Value, max: usize) -> Value {
    let s = v.to_string();
    if s.len() <= max {
        v.clone()
    } else {
        let mut e = max;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        Value::String(format!("{}... ({} bytes of JSON)", &s[..e], s.len()))
    }
}

impl<C> DynFacet for Facet<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }

    fn worker(&self, ctx: &Ctx, w: u64, nw: u64, out: &mut dyn Write) {
        let total = match ctx.tier {
            Tier::Quick => self.cases.0,
            Tier::Thorough => self.cases.1,
        };
        let total = ((total as f64) * ctx.scale).ceil() as u64;
        let mine: Vec<u64> = (0..total).filter(|i| i % nw == w).collect();
        let mut evals = 0u64;
        let mut nontrivial = Vec::new();
        let mut tags: BTreeMap<String, u64> = BTreeMap::new();
        let mut samples = Vec::new();
        let mut cut = false;
        let mut send = |m: &Msg| {
            let mut line = serde_json::to_vec(m).unwrap();
            line.push(b'\n');
            let _ = out.write_all(&line);
            let _ = out.flush();
        };
        'outer: for chunk in mine.chunks(self.batch.max(1) as usize) {
            if Instant::now() > ctx.deadline {
                cut = true;
                break;
            }
            let cases: Vec<C> = chunk.iter().map(|i| self.tree(ctx, *i).current()).collect();
            let res = match self.exec(&cases) {
                Ok(r) => r,
                Err(e) => {
                    send(&Msg::Error(e));
                    break 'outer;
                }
            };
            for (k, r) in res.iter().enumerate() {
                evals += 1;
                match r {
                    Res::Ok(o) => {
                        for t in &o.tags {
                            *tags.entry(t.clone()).or_default() += 1;
                        }
                        if o.nontrivial {
                            let v = serde_json::to_value(&cases[k]).unwrap();
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            self.name.hash(&mut h);
                            v.to_string().hash(&mut h);
                            nontrivial.push(h.finish());
                            if samples.len() < 2 && w == 0 {
                                samples.push(json!({"facet": self.name, "case": trunc(&v, 1500), "tags": o.tags}));
                            }
                        }
                    }
                    Res::Fail(f) => {
                        if ctx.known.contains(&f.sig) {
                            // listed finding met by generation: counted, never an alarm
                            *tags.entry(format!("known-finding:{}", f.sig)).or_default() += 1;
                            continue;
                        }
                        let (case, failure, execs) = self.shrink(ctx, chunk[k], f.clone());
                        send(&Msg::Fail {
                            facet: self.name.into(),
                            index: chunk[k],
                            failure,
                            case: serde_json::to_value(&case).unwrap(),
                            shrunk_execs: execs,
                        });
                        break 'outer;
                    }
                }
            }
        }
        send(&Msg::Stats { evals, nontrivial, tags, samples, cut });
    }

    fn replay(&self, case: &Value) -> R<Out> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| Failure::new("bad-replay", e.to_string()))?;
        let tries = if self.racy { 200 } else { 1 };
        for _ in 0..tries {
            match self.exec(std::slice::from_ref(&c)) {
                Ok(v) => match v.into_iter().last() {
                    Some(Res::Fail(f)) => return Err(f),
                    _ => {}
                },
                Err(e) => return Err(Failure::new("error", e)),
            }
        }
        Ok(Out::new(true))
    }
}

// ---------------------------------------------------------------------------------------------
// master

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

#[derive(Deserialize)]
struct KnownFile {
    findings: Vec<KnownEntry>,
}
#[derive(Deserialize)]
struct KnownEntry {
    property: String,
    sig: String,
    what: String,
}

fn load_known(prop: &str) -> BTreeMap<String, String> {
    let p = verif_dir().join("known_findings.json");
    let txt = match std::fs::read_to_string(&p) {
        Ok(t) => t,
        Err(_) => return BTreeMap::new(),
    };
    let k: KnownFile = serde_json::from_str(&txt).expect("known_findings.json");
    k.findings.into_iter().filter(|e| e.property == prop).map(|e| (e.sig, e.what)).collect()
}

fn make_scratch() -> PathBuf {
    let base = std::env::var_os("VH_SCRATCH_BASE").map(PathBuf::from).unwrap_or_else(|| {
        let shm = PathBuf::from("/dev/shm");
        let t = shm.join(format!(".vh-probe-{}", std::process::id()));
        if std::fs::write(&t, b"x").is_ok() {
            let _ = std::fs::remove_file(&t);
            shm
        } else {
            std::env::temp_dir()
        }
    });
    let p = base.join(format!("stronghold-vh-{}", std::process::id()));
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

fn setup_env(s: &Path) {
    *SCRATCH.lock().unwrap() = Some(s.to_path_buf());
    // everything the code under test writes by default goes into the scratch space
    std::env::set_var("STRONGHOLD", s.join("home"));
    std::env::set_var("XDG_DATA_HOME", s.join("xdg"));
    std::env::set_var("HOME", s.join("home"));
    std::env::set_var("TMPDIR", s);
    std::env::set_var("RUST_BACKTRACE", "0");
    std::fs::create_dir_all(s.join("home")).unwrap();
    std::fs::create_dir_all(s.join("xdg")).unwrap();
}

pub fn main(props: Vec<Property>) -> ! {
    let code = real_main(props);
    if let Some(s) = SCRATCH.lock().unwrap().take() {
        let _ = std::fs::remove_dir_all(&s);
    }
    std::process::exit(code)
}

fn real_main(props: Vec<Property>) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: <PROPERTY> [quick|thorough] | replay <file> | list");
        return 2;
    }
    install_panic_hook();
    if args[0] == "list" {
        for p in &props {
            println!("{} {}", p.id, p.facets.iter().map(|f| f.name()).collect::<Vec<_>>().join(","));
        }
        return 0;
    }
    let s = make_scratch();
    setup_env(&s);
    if args[0] == "replay" {
        let f = std::fs::read_to_string(&args[1]).expect("replay file");
        let v: Value = serde_json::from_str(&f).expect("replay json");
        let pid = v["property"].as_str().unwrap().to_string();
        let fac = v["facet"].as_str().unwrap().to_string();
        let p = props.iter().find(|p| p.id == pid).expect("property");
        if let Some(fi) = p.findings.iter().find(|x| x.sig == fac) {
            return match (fi.run)() {
                Ok(()) => {
                    println!("replay: property held");
                    0
                }
                Err(e) => {
                    println!("VIOLATION property={pid} replay={}\n  [{}] {}", args[1], e.sig, e.msg);
                    1
                }
            };
        }
        let fac = p.facets.iter().find(|x| x.name() == fac).expect("facet");
        return match fac.replay(&v["case"]) {
            Ok(_) => {
                println!("replay: property held");
                0
            }
            Err(e) if e.sig == "error" => {
                eprintln!("ERROR {}", e.msg);
                2
            }
            Err(e) => {
                println!("VIOLATION property={pid} replay={}\n  [{}] {}", args[1], e.sig, e.msg);
                1
            }
        };
    }
    let tier = match args
        .get(1)
        .cloned()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into())
        .as_str()
    {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let p = match props.into_iter().find(|p| p.id == args[0]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", args[0]);
            return 2;
        }
    };
    run_property(p, tier, seed)
}

fn run_property(p: Property, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let known = load_known(p.id);
    let budget = match tier {
        Tier::Quick => 420,
        Tier::Thorough => std::env::var("VH_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(3 * 3600),
    };
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VH_FACET").ok();
    let ctx = Ctx {
        prop: p.id,
        tier,
        seed,
        scale,
        deadline: t0 + Duration::from_secs(budget),
        known: known.keys().cloned().collect(),
    };
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8) as u64;
    let mut violations: Vec<(String, u64, Failure, Value, u64)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut per_facet = serde_json::Map::new();
    let mut rules = vec![];

    // recorded findings first
    let mut known_lines = vec![];
    for f in &p.findings {
        let (buf, end) = forked(
            |w| {
                let r = match catch_unwind(AssertUnwindSafe(|| (f.run)())) {
                    Ok(Ok(())) => Res::Ok(Out::new(true)),
                    Ok(Err(e)) => Res::Fail(e),
                    Err(_) => Res::Fail(Failure::new(f.sig, take_panic())),
                };
                let _ = w.write_all(&serde_json::to_vec(&r).unwrap());
            },
            STALL,
        );
        evals += 1;
        let r: Option<Res> = serde_json::from_slice(&buf).ok();
        let fl = match (r, end) {
            (Some(Res::Ok(_)), ChildEnd::Clean) => None,
            (Some(Res::Fail(e)), _) => Some(e),
            (_, ChildEnd::Signal(s)) => Some(Failure::new(f.sig, format!("ended by {}", signal_name(s)))),
            _ => {
                errors.push(format!("finding {} gave no answer", f.sig));
                None
            }
        };
        if let Some(e) = fl {
            if known.contains_key(&e.sig) {
                known_lines.push(e.sig.clone());
            } else {
                violations.push((f.sig.to_string(), 0, e, Value::Null, 0));
            }
        }
    }

    for f in &p.facets {
        if let Some(o) = &only {
            if o != f.name() {
                continue;
            }
        }
        // enough is known, and the answer must come in time
        if tier == Tier::Quick && !violations.is_empty() && t0.elapsed() > Duration::from_secs(200) {
            eprintln!("  facet {}: skipped, there is a violation already", f.name());
            continue;
        }
        let tf = Instant::now();
        rules.push(format!("{}: {}", f.name(), f.rule()));
        // fork the workers; each writes its messages to its own pipe
        let mut kids = vec![];
        for w in 0..ncpu {
            let (r, wr) = pipe();
            let _ = std::io::stdout().flush();
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "fork");
            if pid == 0 {
                unsafe { libc::close(r) };
                let mut out = unsafe { std::fs::File::from_raw_fd(wr) };
                f.worker(&ctx, w, ncpu, &mut out);
                drop(out);
                unsafe { libc::_exit(0) };
            }
            unsafe { libc::close(wr) };
            kids.push((pid, r));
        }
        let mut fe = 0u64;
        let mut fd = 0usize;
        let mut ftags: BTreeMap<String, u64> = BTreeMap::new();
        let mut fcut = false;
        for (pid, r) in kids {
            let mut s = String::new();
            let mut rd = unsafe { std::fs::File::from_raw_fd(r) };
            let _ = rd.read_to_string(&mut s);
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            let mut complete = false;
            for line in s.lines() {
                match serde_json::from_str::<Msg>(line) {
                    Ok(Msg::Stats { evals: e, nontrivial, tags, samples: sm, cut }) => {
                        complete = true;
                        fe += e;
                        for h in nontrivial {
                            if distinct.insert(h) {
                                fd += 1;
                            }
                        }
                        for (k, v) in tags {
                            *ftags.entry(k).or_default() += v;
                        }
                        samples.extend(sm);
                        fcut |= cut;
                    }
                    Ok(Msg::Fail { facet, index, failure, case, shrunk_execs }) => {
                        violations.push((facet, index, failure, case, shrunk_execs))
                    }
                    Ok(Msg::Error(e)) => errors.push(e),
                    Err(e) => errors.push(format!("worker message: {e}")),
                }
            }
            if !complete {
                errors.push(format!("{}: a worker gave no result (status {st})", f.name()));
            }
        }
        evals += fe;
        eprintln!(
            "  facet {}: {} cases, {} distinct non-trivial, {:.1}s {:?}",
            f.name(),
            fe,
            fd,
            tf.elapsed().as_secs_f64(),
            ftags
        );
        per_facet.insert(
            f.name().into(),
            json!({"evaluations": fe, "distinct_nontrivial": fd, "classes": ftags, "stopped_by_budget": fcut,
                   "wall_s": (tf.elapsed().as_secs_f64()*100.0).round()/100.0}),
        );
    }

    // report
    violations.sort_by(|a, b| (a.0.clone(), a.2.sig.clone(), a.3.to_string().len()).cmp(&(b.0.clone(), b.2.sig.clone(), b.3.to_string().len())));
    let mut seen = HashSet::new();
    let mut n = 0;
    let rdir = verif_dir().join("evidence").join("replays");
    for (facet, index, failure, case, execs) in &violations {
        if !seen.insert((facet.clone(), failure.sig.clone())) {
            continue;
        }
        n += 1;
        let _ = std::fs::create_dir_all(&rdir);
        let name = format!("{}-{}-{:08x}.json", p.id, facet, hash_str(&format!("{}{}", failure.sig, case)) as u32);
        let path = rdir.join(name);
        let doc = json!({"property": p.id, "facet": facet, "seed": seed, "index": index, "sig": failure.sig, "msg": failure.msg,
                         "shrink_executions": execs, "case": case,
                         "replay_cmd": format!("bash {}/run.sh replay {}", verif_dir().display(), path.display())});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        println!("  facet={} [{}] {}", facet, failure.sig, failure.msg.chars().take(600).collect::<String>());
        println!("  case: {}", trunc(case, 1200));
    }
    for sig in &known_lines {
        println!("KNOWN-FINDING: property={} [{}] {}", p.id, sig, known[sig]);
    }
    samples.truncate(12);
    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": rules.join(" | "),
            "samples": samples,
            "facets": per_facet,
            "known_findings_met": known_lines,
            "errors": errors,
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0,
        "violations": n,
    });
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    if only.is_none() {
        std::fs::write(
            verif_dir().join("evidence").join(format!("{}.json", p.id)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
    }
    for e in &errors {
        eprintln!("ERROR {e}");
    }
    println!(
        "{} {:?}: {} cases, {} distinct non-trivial, {} violations, {:.1}s",
        p.id,
        tier,
        evals,
        distinct.len(),
        n,
        t0.elapsed().as_secs_f64()
    );
    if n > 0 {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    }
}
