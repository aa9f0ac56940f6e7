//! Runtime monitors for the unixfs-v1 crate.
//!
//!   mon check <property> --tier quick|thorough --seed N [--bin name=path]... [--cases N] [--secs N]
//!   mon worker <property> <tier> <seed> <first> <step> <cases> <secs> <progress file> <report file>
//!   mon replay <property> <tier> <seed> <case>
//!   mon list
//!
//! A case is a pure function of (property, tier, seed, case number). The supervisor (`check`) spreads
//! the cases over worker processes, so that a crash or an endless loop of the code under test is an
//! observation and not the end of the run.

mod drive;
mod model;
mod pbo;
mod props;
mod util;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use util::Rng;

// ---- instrumentation ---------------------------------------------------------------------------

/// Counts every byte requested from the allocator, the monitor for "work bounded by the block", and
/// those in use, the monitor for what is retained.
struct Counting;

static ALLOCATED: AtomicU64 = AtomicU64::new(0);
/// In use now.
static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCATED.fetch_add(l.size() as u64, Relaxed);
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOCATED.fetch_add(n as u64, Relaxed);
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

pub fn allocated() -> u64 {
    ALLOCATED.load(Relaxed)
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((at, msg)));
    }));
}

/// Where and why this thread panicked, for the thread that decides about it.
pub fn take_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// Continues a panic another thread ended with.
pub fn pass_on(at: Option<(String, String)>, payload: Box<dyn std::any::Any + Send>) -> ! {
    PANIC.with(|p| *p.borrow_mut() = at);
    std::panic::resume_unwind(payload)
}

/// What crosses threads whatever the crate's types allow; whether they do is checked on its own.
pub struct Across<T>(pub T);
unsafe impl<T> Send for Across<T> {}
unsafe impl<T> Sync for Across<T> {}

/// On a thread nothing has happened on before.
pub fn elsewhere<T>(f: impl FnOnce() -> T) -> T {
    let f = Across(f);
    let r = std::thread::scope(|s| {
        s.spawn(move || {
            let f = f;
            Across(catch_unwind(AssertUnwindSafe(f.0)).map_err(|p| (take_panic(), p)))
        })
        .join()
    });
    match r {
        Ok(Across(Ok(t))) => t,
        Ok(Across(Err((at, p)))) => pass_on(at, p),
        Err(p) => std::panic::resume_unwind(p),
    }
}

fn cpu_ns() -> u64 {
    let mut t = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

// ---- verdicts of single cases ------------------------------------------------------------------

#[derive(Debug)]
pub struct Fail(pub String);

impl Fail {
    pub fn new(s: String) -> Fail {
        Fail(s)
    }
}

pub type R = Result<(), Fail>;

/// A failure deep inside of a helper.
pub fn broken(m: String) -> ! {
    std::panic::resume_unwind(Box::new(Fail(m)))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err($crate::Fail(format!($($a)*)));
        }
    };
}

/// The same for two values which have to be equal.
#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $($a:tt)*) => {
        {
            let (got, want) = (&$got, &$want);
            if got != want {
                return Err($crate::Fail(format!("{}: got {:?}, expected {:?}", format!($($a)*), got, want)));
            }
        }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Case {
    pub idx: u64,
    #[allow(dead_code)]
    pub seed: u64,
    pub tier: Tier,
    pub rng: Rng,
    pub obs: Obs,
    /// One of the cases of unusual extent, see `props::large`.
    pub large: Option<u64>,
    key: u64,
    nontrivial: bool,
    describe: bool,
    text: String,
}

#[derive(Default)]
pub struct Obs {
    counts: BTreeMap<&'static str, u64>,
    distinct: BTreeMap<&'static str, HashSet<u64>>,
    cases: HashSet<u64>,
}

impl Case {
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.obs.counts.entry(what).or_insert(0) += n;
    }
    pub fn max(&mut self, what: &'static str, n: u64) {
        let e = self.obs.counts.entry(what).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn distinct(&mut self, what: &'static str, h: u64) {
        let set = self.obs.distinct.entry(what).or_default();
        if set.len() < 2_000_000 {
            set.insert(h);
        }
    }
    /// What identifies this case, and that it exercises the property.
    pub fn counts(&mut self, key: u64) {
        self.key = util::fp2(self.key, key);
        self.nontrivial = true;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            self.text.push_str(&f());
            self.text.push('\n');
        }
    }
    pub fn replays(&self) -> bool {
        REPLAYS.load(Relaxed)
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

enum Verdict {
    Held,
    Broken(String),
    HarnessError(String),
}

fn case_rng(pid: &str, seed: u64, idx: u64) -> Rng {
    Rng::new(util::fp2(util::fp2(util::fp(pid.as_bytes()), seed), idx))
}

fn run_case(p: &props::Prop, c: &mut Case, idx: u64, seed: u64, describe: bool) -> Verdict {
    c.idx = idx;
    c.seed = seed;
    c.rng = case_rng(p.id, seed, idx);
    c.large = props::large::pick(p, idx, c.tier);
    c.key = 0;
    c.nontrivial = false;
    c.describe = describe;
    c.text.clear();
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| props::run(p, c))) {
        Ok(Ok(())) => {
            if c.nontrivial {
                let k = c.key;
                if c.obs.cases.len() < 4_000_000 {
                    c.obs.cases.insert(k);
                }
            }
            Verdict::Held
        }
        Ok(Err(Fail(m))) => Verdict::Broken(m),
        Err(x) if x.is::<Fail>() => Verdict::Broken(x.downcast::<Fail>().map(|f| f.0).unwrap_or_default()),
        Err(_) => {
            let (at, msg) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| ("?".into(), "?".into()));
            // the harness is the root package, so that its own files have relative names
            if at.starts_with("src/") {
                Verdict::HarnessError(format!("panic in the harness at {}: {}", at, msg))
            } else {
                Verdict::Broken(format!("panic at {}: {}", at, msg))
            }
        }
    }
}

// ---- worker ------------------------------------------------------------------------------------

static REPLAYS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static CASE_NOW: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_CPU: AtomicU64 = AtomicU64::new(0);

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '"' => o.push_str("\\\""),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn limits() {
    if std::env::var_os("MON_NO_LIMIT").is_none() {
        let l = libc::rlimit {
            rlim_cur: 3 << 30,
            rlim_max: 3 << 30,
        };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    }
    let l = libc::rlimit {
        rlim_cur: 0,
        rlim_max: 0,
    };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &l) };
}

fn watchdog(limit_s: u64) {
    // the sanitizers take their time
    let limit_s = if std::env::var_os("MON_NO_LIMIT").is_some() { limit_s * 3 } else { limit_s };
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let c = CASE_NOW.load(Relaxed);
        let t = CASE_CPU.load(Relaxed);
        if c != u64::MAX && cpu_ns().saturating_sub(t) > limit_s * 1_000_000_000 && CASE_NOW.load(Relaxed) == c {
            unsafe { libc::_exit(77) };
        }
    });
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(f)
        .expect("spawn")
        .join()
        .unwrap_or_else(|_| std::process::exit(3))
}

const CASE_CPU_LIMIT_S: u64 = 25;

/// For the rare case which is long by design: the watchdog starts over.
pub fn still_going() {
    CASE_CPU.store(cpu_ns(), Relaxed);
}

fn fresh(tier: Tier) -> Case {
    Case {
        idx: 0,
        seed: 0,
        tier,
        rng: Rng::new(0),
        obs: Obs::default(),
        large: None,
        key: 0,
        nontrivial: false,
        describe: false,
        text: String::new(),
    }
}

fn worker(a: &[String]) -> i32 {
    let p = props::find(&a[0]).expect("property");
    let tier = tier_of(&a[1]);
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, first, step, cases, secs) = (n(2), n(3), n(4), n(5), n(6));
    let progress = std::fs::File::create(&a[7]).expect("progress file");
    let report = a[8].clone();
    // valgrind needs its room
    if p.id != "X08" {
        limits();
    }
    install_panic_hook();
    watchdog(CASE_CPU_LIMIT_S);
    on_big_stack(move || {
        use std::os::unix::fs::FileExt;
        let begun = std::time::Instant::now();
        let mut c = fresh(tier);
        let mut out = String::new();
        let mut i = first;
        let mut ran = 0;
        let mut cut = false;
        let mut harness_errors = 0;
        while i < cases {
            if secs > 0 && begun.elapsed().as_secs() >= secs {
                cut = true;
                break;
            }
            let _ = progress.write_at(&i.to_le_bytes(), 0);
            CASE_CPU.store(cpu_ns(), Relaxed);
            CASE_NOW.store(i, Relaxed);
            let want_sample = ran < 2 && first < 3;
            let v = run_case(p, &mut c, i, seed, want_sample);
            let spent = cpu_ns().saturating_sub(CASE_CPU.load(Relaxed)) / 1_000_000;
            c.max("max_case_cpu_ms", spent);
            ran += 1;
            match v {
                Verdict::Held => {
                    if want_sample && !c.text.is_empty() {
                        out.push_str(&format!("sample {} {}\n", i, esc(c.text.trim())));
                    }
                }
                Verdict::Broken(m) => {
                    out.push_str(&format!("fail {} {}\n", i, esc(&m)));
                    break;
                }
                Verdict::HarnessError(m) => {
                    // nothing is decided by this case, others may still say something
                    out.push_str(&format!("harness {} {}\n", i, esc(&m)));
                    harness_errors += 1;
                    if harness_errors == 20 {
                        break;
                    }
                }
            }
            i += step;
        }
        CASE_NOW.store(u64::MAX, Relaxed);
        for (k, v) in &c.obs.counts {
            out.push_str(&format!("count {} {}\n", k, v));
        }
        for (k, v) in &c.obs.distinct {
            out.push_str(&format!("distinct {}\t", k));
            for h in v {
                out.push_str(&format!(" {:x}", h));
            }
            out.push('\n');
        }
        out.push_str("cases");
        for h in &c.obs.cases {
            out.push_str(&format!(" {:x}", h));
        }
        out.push_str(&format!("\nran {} {}\n", ran, cut as u8));
        std::fs::write(report, out).expect("report");
    });
    0
}

fn tier_of(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

/// Exit 0: held, 10: broken, 3: harness error; 77 or a signal: hang or crash.
fn replay(a: &[String]) -> i32 {
    let p = props::find(&a[0]).expect("property");
    let tier = tier_of(&a[1]);
    let seed = a[2].parse().expect("seed");
    let idx = a[3].parse().expect("case");
    if a[0] != "X08" {
        limits();
    }
    install_panic_hook();
    watchdog(CASE_CPU_LIMIT_S * 2);
    REPLAYS.store(true, Relaxed);
    on_big_stack(move || {
        let mut c = fresh(tier);
        CASE_CPU.store(cpu_ns(), Relaxed);
        CASE_NOW.store(idx, Relaxed);
        let v = run_case(p, &mut c, idx, seed, true);
        println!("property {} seed {} case {}", p.id, seed, idx);
        if !c.text.is_empty() {
            println!("{}", c.text.trim_end());
        }
        match v {
            Verdict::Held => {
                println!("held");
                0
            }
            Verdict::Broken(m) => {
                println!("BROKEN: {}", m);
                10
            }
            Verdict::HarnessError(m) => {
                println!("HARNESS ERROR: {}", m);
                3
            }
        }
    })
}

// ---- supervisor --------------------------------------------------------------------------------

#[derive(Default)]
struct Merged {
    counts: BTreeMap<String, u64>,
    distinct: BTreeMap<String, HashSet<u64>>,
    cases: HashSet<u64>,
    samples: BTreeMap<u64, String>,
    ran: u64,
    cut: bool,
    per_bin: BTreeMap<String, u64>,
}

struct Broken {
    bin: String,
    seed: u64,
    idx: u64,
    msg: String,
}

/// What the sanitizers want from the environment.
fn sanitized(cmd: &mut std::process::Command, build: &str) {
    if build == "asan" {
        cmd.env("MON_NO_LIMIT", "1");
        cmd.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1");
    }
    if build == "tsan" {
        cmd.env("MON_NO_LIMIT", "1");
        cmd.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:report_signal_unsafe=0");
    }
}

fn check(a: &[String]) -> i32 {
    let pid = &a[0];
    let p = match props::find(pid) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", pid);
            return 2;
        }
    };
    let mut tier = Tier::Quick;
    let mut seed = 1u64;
    let mut bins: Vec<(String, String)> = Vec::new();
    let mut cases = None;
    let mut secs = None;
    let mut root = std::path::PathBuf::from(".");
    let mut it = a[1..].iter();
    while let Some(x) = it.next() {
        let v = it.next().cloned().unwrap_or_default();
        match x.as_str() {
            "--tier" => tier = tier_of(&v),
            "--seed" => seed = v.parse().unwrap_or(1),
            "--bin" => {
                if let Some((n, p)) = v.split_once('=') {
                    bins.push((n.to_string(), p.to_string()));
                }
            }
            "--cases" => cases = v.parse().ok(),
            "--secs" => secs = v.parse().ok(),
            "--root" => root = v.into(),
            _ => {
                eprintln!("unknown option {}", x);
                return 2;
            }
        }
    }
    if let Err(e) = util::self_test() {
        eprintln!("self test of the oracle failed: {}", e);
        return 2;
    }
    if bins.is_empty() {
        let me = std::env::current_exe().expect("exe");
        bins.push(("checked".into(), me.to_string_lossy().into_owned()));
    }
    let cases: u64 = cases.unwrap_or(if tier == Tier::Quick { p.quick } else { p.quick * 200 });
    let secs: u64 = secs.unwrap_or(if tier == Tier::Quick { 240 } else { 420 });
    let begun = std::time::Instant::now();
    let scratch = root.join("scratch").join(format!("{}-{}", pid, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };

    let mut m = Merged::default();
    let mut broken: Vec<Broken> = Vec::new();
    let mut errors: Vec<String> = Vec::new();

    // each build gets its share of the processors and its own cases
    // and leaves some of them to the threads of a case
    let per = (cpus / bins.len() / if pid == "X04" { 3 } else { 1 }).max(1) as u64;
    let mut kids = Vec::new();
    for (b, (name, path)) in bins.iter().enumerate() {
        let bseed = seed.wrapping_add((b as u64) << 40);
        for k in 0..per {
            let prog = scratch.join(format!("{}-{}.at", name, k));
            let rep = scratch.join(format!("{}-{}.rep", name, k));
            let mut cmd = std::process::Command::new(path);
            cmd.arg("worker")
                .arg(pid)
                .arg(tier_s)
                .args([bseed, k, per, cases, secs].iter().map(|n| n.to_string()))
                .arg(&prog)
                .arg(&rep)
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .env("RUST_BACKTRACE", "0");
            let errf = std::fs::File::create(scratch.join(format!("{}-{}.err", name, k))).expect("err file");
            cmd.stderr(errf);
            sanitized(&mut cmd, name);
            match cmd.spawn() {
                Ok(c) => kids.push((name.clone(), path.clone(), bseed, k, prog, rep, c)),
                Err(e) => errors.push(format!("cannot start {}: {}", path, e)),
            }
        }
    }
    for (name, path, bseed, k, prog, rep, mut child) in kids {
        let st = child.wait();
        let ok = matches!(&st, Ok(s) if s.success());
        if let Ok(text) = std::fs::read_to_string(&rep) {
            merge(&mut m, &name, bseed, &text, &mut broken, &mut errors);
        }
        if !ok {
            // a crash or a hang is only believed when the single case does it again in a process of its own
            let idx = std::fs::read(&prog)
                .ok()
                .and_then(|b| b.try_into().ok())
                .map(u64::from_le_bytes);
            let err = std::fs::read_to_string(scratch.join(format!("{}-{}.err", name, k))).unwrap_or_default();
            match idx {
                None => errors.push(format!("a {} worker ended with {:?} before its first case: {}", name, st, err)),
                Some(idx) => {
                    let mut cmd = std::process::Command::new(&path);
                    cmd.args(["replay", pid, tier_s, &bseed.to_string(), &idx.to_string()])
                        .stdin(std::process::Stdio::null());
                    sanitized(&mut cmd, &name);
                    let again = cmd.output();
                    match again {
                        Ok(o) => {
                            use std::os::unix::process::ExitStatusExt;
                            let code = o.status.code();
                            let race = err.contains("WARNING: ThreadSanitizer: data race");
                            if (code == Some(0) || code == Some(3)) && !race {
                                errors.push(format!(
                                    "case {} ended a {} worker with {:?}, but not when repeated",
                                    idx, name, st
                                ));
                            } else {
                                let what = if race {
                                    "data race".to_string()
                                } else if code == Some(77) {
                                    format!("no end after {} s of processor time", CASE_CPU_LIMIT_S * 2)
                                } else if let Some(s) = o.status.signal() {
                                    format!("process ended by signal {}", s)
                                } else {
                                    format!("process ended with {:?}", code)
                                };
                                let tail: String = err.lines().rev().take(12).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
                                broken.push(Broken {
                                    bin: name.clone(),
                                    seed: bseed,
                                    idx,
                                    msg: format!("{}; {}", what, tail),
                                });
                            }
                        }
                        Err(e) => errors.push(format!("cannot repeat case {}: {}", idx, e)),
                    }
                }
            }
        }
    }

    broken.sort_by(|x, y| (x.idx, &x.bin).cmp(&(y.idx, &y.bin)));
    let wall = begun.elapsed().as_secs_f64();
    let mut code = 0;

    if m.ran == 0 || m.cases.is_empty() {
        if broken.is_empty() {
            errors.push("nothing was observed".into());
        }
    }

    let evidence = root.join("evidence");
    let _ = std::fs::create_dir_all(&evidence);
    let json = evidence_json(p, tier_s, seed, &m, wall, broken.len() as u64);
    if let Err(e) = std::fs::write(evidence.join(format!("{}.json", pid)), json) {
        errors.push(format!("evidence: {}", e));
    }

    if let Some(b) = broken.first() {
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}-{}-{}.txt", pid, b.seed, b.idx));
        let path = &bins.iter().find(|(n, _)| *n == b.bin).unwrap().1;
        let detail = std::process::Command::new(path)
            .args(["replay", pid, tier_s, &b.seed.to_string(), &b.idx.to_string()])
            .stdin(std::process::Stdio::null())
            .output()
            .map(|o| String::from_utf8_lossy(&o.stdout).into_owned())
            .unwrap_or_default();
        let mut text = format!(
            "property {}: {}\nbuild {}\nfound: {}\nrepeat with: {} replay {} {} {} {}\n\n{}\n",
            pid, p.title, b.bin, b.msg, path, pid, tier_s, b.seed, b.idx, detail
        );
        for o in broken.iter().skip(1).take(10) {
            text.push_str(&format!("\nalso: case {} ({}): {}", o.idx, o.bin, o.msg));
        }
        let _ = std::fs::write(&file, text);
        let msg: String = b.msg.chars().take(600).collect();
        println!("{} case {} ({} build): {}", pid, b.idx, b.bin, msg);
        println!("VIOLATION property={} replay={}", pid, file.display());
        code = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR {}: {}", pid, e);
            println!("ERROR {}: {}", pid, e);
        }
        code = 2;
    } else {
        println!(
            "{} held: {} cases ({} distinct and non-trivial) in {:.1} s{}",
            pid,
            m.ran,
            m.cases.len(),
            wall,
            if m.cut { ", stopped by the time budget" } else { "" }
        );
        for (k, v) in &m.counts {
            println!("  {} {}", k, v);
        }
        for (k, v) in &m.distinct {
            println!("  distinct {} {}", k, v.len());
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn merge(m: &mut Merged, bin: &str, seed: u64, text: &str, broken: &mut Vec<Broken>, errors: &mut Vec<String>) {
    for line in text.lines() {
        let mut w = line.splitn(2, ' ');
        let key = w.next().unwrap_or("");
        let rest = w.next().unwrap_or("");
        match key {
            "count" => {
                if let Some((k, v)) = rest.rsplit_once(' ') {
                    let v: u64 = v.parse().unwrap_or(0);
                    let e = m.counts.entry(k.to_string()).or_insert(0);
                    if k.starts_with("max_") || k.starts_with("most ") {
                        *e = (*e).max(v);
                    } else {
                        *e += v;
                    }
                }
            }
            "distinct" => {
                let (k, hashes) = rest.split_once('\t').unwrap_or((rest, ""));
                let set = m.distinct.entry(k.to_string()).or_default();
                set.extend(hashes.split(' ').filter_map(|h| u64::from_str_radix(h, 16).ok()));
            }
            "cases" => m
                .cases
                .extend(rest.split(' ').filter_map(|h| u64::from_str_radix(h, 16).ok())),
            "sample" => {
                if let Some((i, t)) = rest.split_once(' ') {
                    m.samples.insert(i.parse().unwrap_or(0), t.to_string());
                }
            }
            "ran" => {
                let mut it = rest.split(' ').map(|x| x.parse::<u64>().unwrap_or(0));
                let n = it.next().unwrap_or(0);
                m.ran += n;
                *m.per_bin.entry(bin.to_string()).or_insert(0) += n;
                m.cut |= it.next() == Some(1);
            }
            "fail" | "harness" => {
                if let Some((i, t)) = rest.split_once(' ') {
                    let idx = i.parse().unwrap_or(0);
                    if key == "fail" {
                        broken.push(Broken {
                            bin: bin.to_string(),
                            seed,
                            idx,
                            msg: t.to_string(),
                        });
                    } else {
                        errors.push(format!("case {}: {}", idx, t));
                    }
                }
            }
            _ => {}
        }
    }
}

fn evidence_json(p: &props::Prop, tier: &str, seed: u64, m: &Merged, wall: f64, violations: u64) -> String {
    let mut s = String::new();
    s.push_str(&format!(
        "{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n",
        p.id, tier, seed
    ));
    s.push_str(&format!("    \"evaluations\": {},\n", m.ran));
    s.push_str(&format!("    \"distinct_nontrivial\": {},\n", m.cases.len()));
    s.push_str(&format!("    \"rule\": \"{}{}\",\n", esc(p.rule), esc(&props::large::rule(p))));
    s.push_str("    \"observed\": {");
    let items: Vec<String> = m.counts.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    s.push_str(&items.join(", "));
    s.push_str("},\n    \"distinct_observed\": {");
    let items: Vec<String> = m
        .distinct
        .iter()
        .map(|(k, v)| format!("\"{}\": {}", esc(k), v.len()))
        .collect();
    s.push_str(&items.join(", "));
    s.push_str("},\n    \"cases_per_build\": {");
    let items: Vec<String> = m.per_bin.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    s.push_str(&items.join(", "));
    s.push_str(&format!("}},\n    \"stopped_by_time_budget\": {},\n", m.cut));
    s.push_str("    \"samples\": [");
    let items: Vec<String> = m
        .samples
        .iter()
        .take(4)
        // the text is escaped already
        .map(|(i, t)| {
            let cut: String = if t.len() > 1500 {
                let mut n = 1500;
                while !t.is_char_boundary(n) || t[..n].ends_with('\\') {
                    n -= 1;
                }
                // do not end in the middle of an escape
                let head = &t[..n];
                match head.rfind('\\') {
                    Some(b) if n - b < 7 => head[..b].trim_end_matches('\\').to_string(),
                    _ => head.to_string(),
                }
            } else {
                t.clone()
            };
            format!("\"case {}: {}\"", i, cut)
        })
        .collect();
    s.push_str(&items.join(", "));
    s.push_str("]\n  },\n  \"assumptions\": [");
    let items: Vec<String> = p.assumptions.iter().map(|a| format!("\"{}\"", esc(a))).collect();
    s.push_str(&items.join(", "));
    s.push_str(&format!(
        "],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        wall, violations
    ));
    s
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a[1..]),
        Some("worker") => worker(&a[1..]),
        Some("replay") => replay(&a[1..]),
        Some("effort") => props::effort::child(&a[1..]),
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.title);
            }
            0
        }
        _ => {
            let _ = writeln!(std::io::stderr(), "usage: mon check|replay|list ...");
            2
        }
    };
    std::process::exit(code)
}

#[allow(dead_code)]
type Unused = HashMap<u8, u8>;
