//! Shared machinery of the runtime monitors: deterministic randomness, case
//! scheduling over worker processes, panic/hang/abort observation, verdict
//! discipline, known findings and evidence.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::panic;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub mod digests;
pub mod rng;
pub use rng::Rng;

/// A refutation of the property, as observed by a monitor.
#[derive(Debug, Clone)]
pub struct Violation {
    /// Stable signature, used to match known findings.
    pub sig: String,
    /// What was observed, and what the oracle demands.
    pub message: String,
}

pub type CaseResult = Result<(), Violation>;

pub fn violation(sig: &str, message: String) -> Violation {
    Violation {
        sig: sig.to_string(),
        message,
    }
}

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => {
        return Err($crate::violation($sig, format!($($arg)*)))
    };
}

#[macro_export]
macro_rules! require {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::violation($sig, format!($($arg)*)));
        }
    };
}

#[macro_export]
macro_rules! require_eq {
    ($left:expr, $right:expr, $sig:expr, $($arg:tt)*) => {{
        let (l, r) = (&$left, &$right);
        if *l != *r {
            return Err($crate::violation($sig, format!("{}: observed {} expected {}",
                format!($($arg)*), $crate::short(&format!("{:?}", l)), $crate::short(&format!("{:?}", r)))));
        }
    }};
}

pub fn short(s: &str) -> String {
    if s.len() > 600 {
        let mut end = 600;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        format!("{}... ({} chars)", &s[..end], s.len())
    } else {
        s.to_string()
    }
}

pub fn hex(data: &[u8]) -> String {
    let mut s = String::with_capacity(data.len() * 2);
    for b in data.iter().take(4096) {
        s.push_str(&format!("{:02x}", b));
    }
    if data.len() > 4096 {
        s.push_str(&format!("...({} bytes)", data.len()));
    }
    s
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a case can tell the machinery while it runs.
pub struct Ctx {
    pub rng: Rng,
    pub tier: Tier,
    pub seed: u64,
    pub index: u64,
    pub scratch: PathBuf,
    stats: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    sample_wanted: bool,
    detail: Vec<String>,
    /// Inputs evaluated in the running case.
    evaluated: u64,
}

impl Ctx {
    /// Counts an observed event.
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        match self.stats.get_mut(name) {
            Some(v) => *v += n,
            None => {
                self.stats.insert(name.to_string(), n);
            }
        }
    }
    /// Registers a non-trivial observation identified by its content.
    pub fn distinct(&mut self, data: &[u8]) {
        self.evaluated += 1;
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(fnv(data));
        }
    }
    pub fn distinct_hash(&mut self, h: u64) {
        self.evaluated += 1;
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample_wanted && self.samples.len() < 2 {
            let s = f();
            self.samples.push(short(&s));
        }
    }
    /// Describes the input of the running case, for the replay file.
    pub fn detail(&mut self, s: String) {
        if self.detail.len() < 64 {
            self.detail.push(s);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

/// Runs the code under test and reports a panic of it as (location, message).
pub fn observe<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = LAST_PANIC.with(|l| l.borrow_mut().take());
            Err(p.unwrap_or((String::from("?"), String::from("?"))))
        }
    }
}

fn strip_numbers(s: &str) -> String {
    let mut o = String::new();
    let mut in_number = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !in_number {
                o.push('N');
            }
            in_number = true;
        } else {
            in_number = false;
            o.push(c);
        }
    }
    o
}

/// Whether a source location belongs to the code under test (the shims link to it).
fn under_test(location: &str) -> bool {
    location.starts_with("/repo/") || location.contains("/shim/keramics-")
}

/// Signature of a panic: file below /repo and message without its numbers.
pub fn panic_sig(p: &(String, String)) -> String {
    let file = p.0.split(':').next().unwrap_or("?");
    let file = match file.find("/keramics-") {
        Some(i) if under_test(file) => &file[i + 1..],
        _ => file,
    };
    let message: String = strip_numbers(&p.1).chars().take(90).collect();
    format!("panic:{}:{}", file, message)
}

pub fn panic_violation(what: &str, p: &(String, String)) -> Violation {
    violation(
        &panic_sig(p),
        format!("{}: the code under test panicked at {}: {}", what, p.0, p.1),
    )
}

/// Runs code under test that must not panic.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    match observe(f) {
        Ok(v) => Ok(v),
        Err(p) => Err(panic_violation(what, &p)),
    }
}

pub struct Section {
    pub name: &'static str,
    /// Number of cases, for each tier.
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> CaseResult,
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub sections: Vec<Section>,
    /// Observations that must have been made for a quiet run to count.
    pub must_observe: &'static [&'static str],
    /// CPU seconds one case may use before it counts as not terminating.
    pub case_cpu_limit: u64,
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
unsafe extern "C" {
    fn clock_gettime(id: i32, ts: *mut Timespec) -> i32;
    fn setrlimit(resource: i32, r: *const Rlimit) -> i32;
}

/// Limits the CPU time of the calling process, for use between fork and exec.
pub fn limit_cpu(seconds: u64) {
    let limit = Rlimit { cur: seconds, max: seconds + 5 };
    unsafe { setrlimit(0, &limit) };
}

fn process_cpu_ms() -> u64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    // CLOCK_PROCESS_CPUTIME_ID = 2
    unsafe { clock_gettime(2, &mut ts) };
    (ts.sec as u64) * 1000 + (ts.nsec as u64) / 1_000_000
}

static CASE_START_CPU: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_SERIAL: AtomicU64 = AtomicU64::new(0);

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("(non-string panic)")
        };
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc.clone(), msg.clone())));
        if QUIET.with(|q| q.get()) == 0 {
            eprintln!("panic at {}: {}", loc, msg);
        }
    }));
}

fn case_rng(seed: u64, section: &str, index: u64) -> Rng {
    Rng::new(seed ^ fnv(section.as_bytes()).rotate_left(17) ^ index.wrapping_mul(0x9e3779b97f4a7c15))
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct WorkerArgs {
    shard: u64,
    shards: u64,
    out: PathBuf,
    only: Option<(String, u64)>,
    deadline_s: u64,
    // (section, first index) to resume after a case that killed the worker
    skip: HashSet<(String, u64)>,
}

fn run_one(prop: &Property, section: &Section, index: u64, ctx: &mut Ctx) -> CaseResult {
    ctx.rng = case_rng(ctx.seed, section.name, index);
    ctx.index = index;
    ctx.detail.clear();
    CASE_START_CPU.store(process_cpu_ms(), Ordering::SeqCst);
    CASE_SERIAL.fetch_add(1, Ordering::SeqCst);
    let r = observe(|| (section.run)(ctx));
    CASE_START_CPU.store(u64::MAX, Ordering::SeqCst);
    let _ = prop;
    match r {
        Ok(r) => r,
        Err(p) => {
            if under_test(&p.0) {
                Err(panic_violation("uncaught in monitor", &p))
            } else if p.0.contains("rustlib/src/rust") || p.0.starts_with("/rustc/") || p.0.contains("/library/") {
                // a standard library panic: in the code under test or in the monitor; the
                // monitors wrap the former in no_panic, so this is a monitor error.
                Err(violation("HARNESS", format!("monitor panicked at {}: {}", p.0, p.1)))
            } else {
                Err(violation("HARNESS", format!("monitor panicked at {}: {}", p.0, p.1)))
            }
        }
    }
}

fn worker(prop: &Property, seed: u64, tier: Tier, args: WorkerArgs) -> i32 {
    install_hook();
    // 6 GiB of address space: an input that makes the code under test allocate more aborts.
    let limit = Rlimit { cur: 6 << 30, max: 6 << 30 };
    unsafe { setrlimit(9, &limit) };
    let nocore = Rlimit { cur: 0, max: 0 };
    unsafe { setrlimit(4, &nocore) };

    let scratch = args.out.with_extension("scratch");
    let _ = fs::create_dir_all(&scratch);
    let mut ctx = Ctx {
        rng: Rng::new(0),
        tier,
        seed,
        index: 0,
        scratch: scratch.clone(),
        stats: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: Vec::new(),
        sample_wanted: true,
        detail: Vec::new(),
        evaluated: 0,
    };
    let current_path = args.out.with_extension("current");
    let mut current = fs::File::create(&current_path).unwrap();
    let hang_path = args.out.with_extension("hang");
    let limit_ms = prop.case_cpu_limit * 1000;
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let serial = CASE_SERIAL.load(Ordering::SeqCst);
            let start = CASE_START_CPU.load(Ordering::SeqCst);
            if start != u64::MAX && process_cpu_ms().saturating_sub(start) > limit_ms {
                if CASE_SERIAL.load(Ordering::SeqCst) == serial
                    && CASE_START_CPU.load(Ordering::SeqCst) == start
                {
                    let _ = fs::write(&hang_path, b"hang");
                    std::process::exit(97);
                }
            }
        }
    });
    let started = Instant::now();
    let mut evaluations: u64 = 0;
    let mut out = String::new();
    let mut per_section: BTreeMap<&str, u64> = BTreeMap::new();
    let mut seen: HashMap<String, u64> = HashMap::new();
    let mut truncated = false;
    // For finding slow cases when a worker is run by hand.
    let slow: Option<u128> = std::env::var("MON_SLOW").ok().and_then(|v| v.parse().ok());
    for section in prop.sections.iter() {
        if let Some((name, _)) = &args.only {
            if name != section.name {
                continue;
            }
        }
        let n = match tier {
            Tier::Quick => section.quick,
            Tier::Thorough => section.thorough,
        };
        ctx.sample_wanted = true;
        ctx.samples.clear();
        let (mut index, step, end) = match &args.only {
            Some((_, i)) => (*i, 1, *i + 1),
            None => (args.shard, args.shards, n),
        };
        while index < end {
            if args.only.is_none() && started.elapsed().as_secs() > args.deadline_s {
                truncated = true;
                break;
            }
            if args.skip.contains(&(section.name.to_string(), index)) {
                index += step;
                continue;
            }
            use std::os::unix::fs::FileExt;
            let mark = format!("{}\t{}\t                \n", section.name, index);
            let _ = current.write_at(mark.as_bytes(), 0);
            ctx.evaluated = 0;
            let case_started = Instant::now();
            let r = run_one(prop, section, index, &mut ctx);
            if slow.is_some_and(|ms| case_started.elapsed().as_millis() >= ms) {
                eprintln!("{} {} {} ms {}", section.name, index, case_started.elapsed().as_millis(), ctx.detail.join(" | "));
            }
            evaluations += ctx.evaluated.max(1);
            *per_section.entry(section.name).or_insert(0) += 1;
            if let Err(v) = r {
                let n = seen.entry(v.sig.clone()).or_insert(0);
                *n += 1;
                if *n <= 3 {
                    out.push_str(&format!(
                        "VIOL\t{}\t{}\t{}\t{}\t{}\n",
                        esc(&v.sig),
                        section.name,
                        index,
                        esc(&v.message),
                        esc(&ctx.detail.join("\n"))
                    ));
                }
            }
            index += step;
        }
        ctx.sample_wanted = false;
        if args.shard == 0 {
            for s in ctx.samples.iter() {
                out.push_str(&format!("SAMPLE\t{}\t{}\n", section.name, esc(s)));
            }
        }
    }
    out.push_str(&format!("EVAL\t{}\n", evaluations));
    if truncated {
        out.push_str("TRUNC\t1\n");
    }
    for (k, v) in per_section.iter() {
        out.push_str(&format!("SECT\t{}\t{}\n", k, v));
    }
    for (k, v) in ctx.stats.iter() {
        out.push_str(&format!("STAT\t{}\t{}\n", esc(k), v));
    }
    out.push_str("DONE\n");
    let mut hashes: Vec<u8> = Vec::with_capacity(ctx.distinct.len() * 8);
    for h in ctx.distinct.iter() {
        hashes.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(args.out.with_extension("hashes"), &hashes).unwrap();
    fs::write(&args.out, out.as_bytes()).unwrap();
    let _ = fs::remove_dir_all(&scratch);
    0
}

struct Finding {
    property: String,
    sig: String,
    what: String,
}

/// known_findings.txt: `<property>\t<signature>\t<what fails>` per line, `#` comments,
/// `fixed:` lines ignored.
fn load_findings(path: &Path) -> Vec<Finding> {
    let mut r = Vec::new();
    let text = match fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return r,
    };
    for line in text.lines() {
        if line.starts_with('#') || line.starts_with("fixed:") || line.trim().is_empty() {
            continue;
        }
        let p: Vec<&str> = line.split('\t').collect();
        if p.len() >= 3 {
            r.push(Finding {
                property: p[0].to_string(),
                sig: p[1].to_string(),
                what: p[2].to_string(),
            });
        }
    }
    r
}

fn spawn_worker(
    exe: &Path,
    id: &str,
    seed: u64,
    tier: Tier,
    shard: u64,
    shards: u64,
    out: &Path,
    only: Option<(&str, u64)>,
    deadline: u64,
    skip: &[(String, u64)],
) -> std::io::Result<std::process::Child> {
    let mut c = Command::new(exe);
    c.arg("worker")
        .arg(id)
        .arg(seed.to_string())
        .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
        .arg(shard.to_string())
        .arg(shards.to_string())
        .arg(out)
        .arg(deadline.to_string());
    match only {
        Some((s, i)) => c.arg(format!("{}\t{}", s, i)),
        None => c.arg("-"),
    };
    for (s, i) in skip {
        c.arg(format!("{}\t{}", s, i));
    }
    c.stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::File::create(out.with_extension("stderr"))?);
    c.spawn()
}

fn tail(path: &Path) -> String {
    let mut s = String::new();
    if let Ok(mut f) = fs::File::open(path) {
        let _ = f.read_to_string(&mut s);
    }
    let n = s.len();
    let mut start = n.saturating_sub(1500);
    while start < n && !s.is_char_boundary(start) {
        start += 1;
    }
    s[start..].to_string()
}

#[derive(Clone)]
struct SeenViolation {
    sig: String,
    section: String,
    index: u64,
    message: String,
    detail: String,
}

/// Entry point of a monitor binary.
///
/// `<exe> run <property> <verif root>`: seed and tier come from VERIF_SEED and VERIF_TIER.
/// `<exe> replay <property> <verif root> <replay file>`
/// `<exe> list`
pub fn main_with(properties: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = main_inner(&properties, &args);
    std::process::exit(code);
}

fn find<'a>(properties: &'a [Property], id: &str) -> Option<&'a Property> {
    properties.iter().find(|p| p.id == id)
}

fn main_inner(properties: &[Property], args: &[String]) -> i32 {
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in properties {
                println!("{}", p.id);
            }
            0
        }
        Some("worker") => {
            let prop = find(properties, &args[2]).unwrap();
            let seed: u64 = args[3].parse().unwrap();
            let tier = if args[4] == "quick" { Tier::Quick } else { Tier::Thorough };
            let parse = |s: &str| -> (String, u64) {
                let (a, b) = s.split_once('\t').unwrap();
                (a.to_string(), b.parse().unwrap())
            };
            let only = if args[9] == "-" { None } else { Some(parse(&args[9])) };
            let skip = args[10..].iter().map(|s| parse(s)).collect();
            // Big stack: recursion depth is the subject's own affair, but the default main
            // thread limit is what a user gets, so the worker runs on a thread of 8 MiB.
            let w = WorkerArgs {
                shard: args[5].parse().unwrap(),
                shards: args[6].parse().unwrap(),
                out: PathBuf::from(&args[7]),
                deadline_s: args[8].parse().unwrap(),
                only,
                skip,
            };
            worker(prop, seed, tier, w)
        }
        Some("run") => run(properties, args),
        Some("replay") => replay(properties, args),
        _ => {
            eprintln!("usage: run|replay|list");
            2
        }
    }
}

fn replay(properties: &[Property], args: &[String]) -> i32 {
    let prop = match find(properties, &args[2]) {
        Some(p) => p,
        None => return 2,
    };
    let text = match fs::read_to_string(&args[4]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", args[4], e);
            return 2;
        }
    };
    let mut kv: HashMap<String, String> = HashMap::new();
    for line in text.lines() {
        if let Some((k, v)) = line.split_once('=') {
            kv.entry(k.to_string()).or_insert(v.to_string());
        }
    }
    let seed: u64 = kv["seed"].parse().unwrap();
    let tier = if kv["tier"] == "quick" { Tier::Quick } else { Tier::Thorough };
    let section = kv["section"].clone();
    let index: u64 = kv["index"].parse().unwrap();
    let dir = PathBuf::from(&args[3]).join(".work").join(format!("{}-replay-{}", prop.id, std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let out = dir.join("w0");
    let exe = std::env::current_exe().unwrap();
    let st = spawn_worker(&exe, prop.id, seed, tier, 0, 1, &out, Some((&section, index)), 3600, &[])
        .and_then(|mut c| c.wait());
    println!("worker: {:?}", st);
    println!("{}", unesc(&fs::read_to_string(&out).unwrap_or_default()));
    println!("{}", tail(&out.with_extension("stderr")));
    let bad = fs::read_to_string(&out).map(|t| t.contains("VIOL\t")).unwrap_or(true);
    let _ = fs::remove_dir_all(&dir);
    if bad {
        println!("VIOLATION property={} replay={}", prop.id, args[4]);
        1
    } else {
        0
    }
}

fn run(properties: &[Property], args: &[String]) -> i32 {
    let started = Instant::now();
    let prop = match find(properties, &args[2]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", args[2]);
            return 2;
        }
    };
    let root = PathBuf::from(&args[3]);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").ok().as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let shards: u64 = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)
    });
    // Workload budget in wall-clock seconds: it shortens the workload, never decides a verdict.
    let deadline: u64 = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 240,
        Tier::Thorough => 7200,
    });
    let work = root.join(".work").join(format!("{}-{}", prop.id, std::process::id()));
    let _ = fs::remove_dir_all(&work);
    fs::create_dir_all(&work).unwrap();
    let exe = std::env::current_exe().unwrap();

    let mut violations: Vec<SeenViolation> = Vec::new();
    let mut harness_errors: Vec<String> = Vec::new();
    let mut evaluations: u64 = 0;
    let mut truncated = false;
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut sections: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<(String, String)> = Vec::new();
    let mut distinct: HashSet<u64> = HashSet::new();

    let findings = load_findings(&root.join("known_findings.txt"));
    // Set once a hang is confirmed: looking for further ones would take minutes each.
    let mut enough = false;
    let mut live: Vec<(u64, std::process::Child, PathBuf, Vec<(String, u64)>)> = Vec::new();
    for shard in 0..shards {
        let out = work.join(format!("w{}", shard));
        match spawn_worker(&exe, prop.id, seed, tier, shard, shards, &out, None, deadline, &[]) {
            Ok(c) => live.push((shard, c, out, Vec::new())),
            Err(e) => harness_errors.push(format!("spawn: {}", e)),
        }
    }
    while let Some((shard, mut child, out, mut skip)) = live.pop() {
        if enough {
            let _ = child.kill();
            let _ = child.wait();
            continue;
        }
        let status = match child.wait() {
            Ok(s) => s,
            Err(e) => {
                harness_errors.push(format!("wait: {}", e));
                continue;
            }
        };
        let text = fs::read_to_string(&out).unwrap_or_default();
        if status.success() && text.ends_with("DONE\n") {
            for line in text.lines() {
                let p: Vec<&str> = line.split('\t').collect();
                match p[0] {
                    "VIOL" => {
                        let v = SeenViolation {
                            sig: unesc(p[1]),
                            section: p[2].to_string(),
                            index: p[3].parse().unwrap(),
                            message: unesc(p[4]),
                            detail: unesc(p.get(5).unwrap_or(&"")),
                        };
                        if v.sig == "HARNESS" {
                            harness_errors.push(format!("{}#{}: {}", v.section, v.index, v.message));
                        } else {
                            violations.push(v);
                        }
                    }
                    "SAMPLE" => samples.push((p[1].to_string(), unesc(p[2]))),
                    "EVAL" => evaluations += p[1].parse::<u64>().unwrap(),
                    "TRUNC" => truncated = true,
                    "SECT" => *sections.entry(p[1].to_string()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                    "STAT" => *stats.entry(unesc(p[1])).or_insert(0) += p[2].parse::<u64>().unwrap(),
                    _ => {}
                }
            }
            if let Ok(h) = fs::read(out.with_extension("hashes")) {
                for c in h.chunks_exact(8) {
                    distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
            continue;
        }
        // The worker died or stopped making progress: find the case and look at it alone.
        let current = fs::read_to_string(out.with_extension("current")).unwrap_or_default();
        let p: Vec<&str> = current.lines().next().unwrap_or("").split('\t').collect();
        if p.len() < 2 {
            harness_errors.push(format!("worker {} died before its first case: {:?} {}", shard, status, tail(&out.with_extension("stderr"))));
            continue;
        }
        let section = p[0].to_string();
        let index: u64 = p[1].trim().parse().unwrap();
        let alone = work.join(format!("alone-{}-{}", section, index));
        let mut deaths = 0;
        let mut how = String::new();
        let mut hang = 0;
        for _ in 0..2 {
            let _ = fs::remove_file(alone.with_extension("hang"));
            let r = spawn_worker(&exe, prop.id, seed, tier, 0, 1, &alone, Some((&section, index)), 3600, &[])
                .and_then(|mut c| c.wait());
            match r {
                Ok(s) if s.success() => {}
                Ok(s) => {
                    deaths += 1;
                    if alone.with_extension("hang").exists() {
                        hang += 1;
                    }
                    how = format!("{} {}", s, tail(&alone.with_extension("stderr")).trim());
                }
                Err(e) => how = format!("{}", e),
            }
        }
        if deaths == 2 {
            let sig = if hang == 2 {
                format!("hang:{}", section)
            } else if how.contains("memory allocation") || how.contains("capacity overflow") {
                format!("alloc:{}", section)
            } else if how.contains("overflowed its stack") {
                format!("stack:{}", section)
            } else {
                format!("abort:{}", section)
            };
            let what = if hang == 2 {
                format!("no end of the case within {} s of CPU time (three times out of three)", prop.case_cpu_limit)
            } else {
                format!("the process running the code under test died: {}", short(&how))
            };
            if how.contains("SIGKILL") {
                harness_errors.push(format!("{}#{}: killed from outside: {}", section, index, how));
            } else {
                violations.push(SeenViolation { sig, section: section.clone(), index, message: what, detail: String::new() });
            }
        } else {
            harness_errors.push(format!(
                "worker {} died at {}#{} ({:?}: {}) and the case alone did not (inconclusive)",
                shard, section, index, status, tail(&out.with_extension("stderr"))
            ));
        }
        let confirmed = violations.iter().any(|v| {
            v.sig.starts_with("hang:") && !findings.iter().any(|f| f.property == prop.id && f.sig == v.sig)
        });
        enough = enough || confirmed;
        skip.push((section.clone(), index));
        if !enough && skip.len() < 12 && deaths == 2 {
            let left = deadline.saturating_sub(started.elapsed().as_secs()).max(20);
            let _ = fs::remove_file(&out);
            if let Ok(c) = spawn_worker(&exe, prop.id, seed, tier, shard, shards, &out, None, left, &skip) {
                live.push((shard, c, out, skip));
            }
        }
    }

    // Known findings.
    let mut new_violations: Vec<SeenViolation> = Vec::new();
    let mut known_seen: BTreeMap<String, String> = BTreeMap::new();
    for v in violations.iter() {
        match findings.iter().find(|f| f.property == prop.id && f.sig == v.sig) {
            Some(f) => {
                known_seen.insert(f.sig.clone(), f.what.clone());
            }
            None => new_violations.push(v.clone()),
        }
    }
    for (sig, what) in known_seen.iter() {
        println!("KNOWN-FINDING: property={} {} [{}]", prop.id, what, sig);
    }
    new_violations.sort_by(|a, b| (&a.sig, &a.section, a.index).cmp(&(&b.sig, &b.section, b.index)));
    let mut printed: HashSet<String> = HashSet::new();
    let replays = root.join(".work").join("replays");
    let _ = fs::create_dir_all(&replays);
    for v in new_violations.iter() {
        if !printed.insert(v.sig.clone()) || printed.len() > 20 {
            continue;
        }
        let path = replays.join(format!("{}-{}-{}-{:08x}.txt", prop.id, v.section, v.index, fnv(v.sig.as_bytes()) as u32));
        let body = format!(
            "property={}\nseed={}\ntier={}\nsection={}\nindex={}\nsignature={}\nobserved={}\n\n{}\n",
            prop.id,
            seed,
            if tier == Tier::Quick { "quick" } else { "thorough" },
            v.section,
            v.index,
            v.sig,
            v.message,
            v.detail
        );
        let _ = fs::write(&path, body);
        println!("{} {}#{}: {}", prop.id, v.section, v.index, short(&v.message));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    }
    for e in harness_errors.iter().take(10) {
        eprintln!("monitor error: {}", short(e));
    }
    let mut missing: Vec<&str> = Vec::new();
    for m in prop.must_observe {
        if stats.get(*m).copied().unwrap_or(0) == 0 {
            missing.push(m);
        }
    }

    // Evidence.
    let mut ev = String::new();
    ev.push_str("{\n");
    ev.push_str(&format!(" \"property\": {},\n", json_str(prop.id)));
    ev.push_str(&format!(" \"tier\": \"{}\",\n", if tier == Tier::Quick { "quick" } else { "thorough" }));
    ev.push_str(&format!(" \"seed\": {},\n", seed));
    ev.push_str(&format!(" \"level\": {},\n", json_str(prop.level)));
    ev.push_str(" \"coverage\": {\n");
    ev.push_str(&format!("  \"evaluations\": {},\n", evaluations));
    ev.push_str(&format!("  \"distinct_nontrivial\": {},\n", distinct.len()));
    ev.push_str(&format!("  \"rule\": {},\n", json_str(prop.rule)));
    ev.push_str(&format!("  \"workload_cut_short\": {},\n", truncated));
    ev.push_str("  \"cases_per_section\": {");
    ev.push_str(&sections.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"observed\": {");
    ev.push_str(&stats.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"known_findings_seen\": [");
    ev.push_str(&known_seen.keys().map(|k| json_str(k)).collect::<Vec<_>>().join(", "));
    ev.push_str("],\n  \"samples\": [\n");
    ev.push_str(
        &samples
            .iter()
            .map(|(s, t)| format!("   {}", json_str(&format!("{}: {}", s, t))))
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    ev.push_str("\n  ]\n },\n");
    ev.push_str(" \"assumptions\": [");
    ev.push_str(&prop.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "));
    ev.push_str("],\n");
    ev.push_str(&format!(" \"wall_s\": {:.1},\n", started.elapsed().as_secs_f64()));
    ev.push_str(&format!(" \"violations\": {}\n}}\n", printed.len()));
    let _ = fs::create_dir_all(root.join("evidence"));
    let mut f = fs::File::create(root.join("evidence").join(format!("{}.json", prop.id))).unwrap();
    f.write_all(ev.as_bytes()).unwrap();
    let _ = fs::remove_dir_all(&work);

    println!(
        "{}: {} cases, {} distinct non-trivial observations, {} known findings, {} violations, {:.1} s{}",
        prop.id,
        evaluations,
        distinct.len(),
        known_seen.len(),
        printed.len(),
        started.elapsed().as_secs_f64(),
        if truncated { " (workload cut short by its budget)" } else { "" }
    );
    if !printed.is_empty() {
        return 1;
    }
    if !harness_errors.is_empty() || !missing.is_empty() {
        eprintln!("inconclusive: {} monitor errors, not observed: {:?}", harness_errors.len(), missing);
        return 2;
    }
    0
}
