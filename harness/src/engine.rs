//! Runs the generated cases of a property, shrinks failures, writes replay and
//! evidence files.
use crate::src::{hash_bytes, mix, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail(pub String);
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail(s)
    }
}
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Fail(format!($($arg)*)));
        }
    };
}
#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => {
        return Err($crate::engine::Fail(format!($($arg)*)))
    };
}

/// What a case reports besides its verdict.
pub struct Cx<'a> {
    /// The number of the case within its part (the input of exhaustive parts).
    pub idx: u64,
    pub thorough: bool,
    labels: BTreeMap<String, u64>,
    nontrivial: bool,
    key: u64,
    desc: String,
    want_desc: bool,
    accepted_findings: &'a BTreeSet<String>,
    seen_findings: BTreeMap<String, String>,
}
impl Cx<'_> {
    pub fn label(&mut self, l: &str) {
        self.label_n(l, 1);
    }
    pub fn label_n(&mut self, l: &str, n: u64) {
        match self.labels.get_mut(l) {
            Some(x) => *x += n,
            None => {
                self.labels.insert(l.to_string(), n);
            }
        }
    }
    /// Marks the case as non-trivial by the rule of the property.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Tells what identifies the input of the case.
    pub fn key(&mut self, bytes: &[u8]) {
        self.key = mix(&[self.key, hash_bytes(bytes)]);
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&f());
        }
    }
    /// A deviation that is tolerated exactly if it is a listed known finding.
    pub fn finding(&mut self, signature: &str, what: impl FnOnce() -> String) -> R {
        if self.accepted_findings.contains(signature) {
            if !self.seen_findings.contains_key(signature) {
                self.seen_findings.insert(signature.to_string(), what());
            }
            Ok(())
        } else {
            Err(Fail(format!("{} [{signature}]", what())))
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Cx) -> R;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// The cases are all those of a finite space (idx is the input).
    pub exhaustive: bool,
    pub run: CaseFn,
}
/// Cases per tier, as multiples of the number given with each part.
const QUICK: u64 = 8;
const THOROUGH: u64 = 300;
pub fn random(name: &'static str, quick: u64, run: CaseFn) -> Part {
    Part { name, quick: quick * QUICK, thorough: quick * THOROUGH, exhaustive: false, run }
}
pub fn exhaustive(name: &'static str, n: u64, run: CaseFn) -> Part {
    Part { name, quick: n, thorough: n, exhaustive: true, run }
}
/// A fixed list of directed cases (the list is the body of `run`).
pub fn directed(name: &'static str, n: u64, run: CaseFn) -> Part {
    exhaustive(name, n, run)
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("STUNPBT_LOUD").is_some() {
            eprintln!("panic: {msg} at {at}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked: {msg} at {at}"));
    }));
}
/// Runs `f`, turning a panic into a failure.
pub fn guarded<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(Fail(LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

struct Outcome {
    result: R,
    labels: BTreeMap<String, u64>,
    nontrivial: bool,
    key: u64,
    desc: String,
    findings: BTreeMap<String, String>,
}

fn run_case(part: &Part, idx: u64, src: &mut Src, cfg: &Config, want_desc: bool) -> Outcome {
    let mut cx = Cx {
        idx,
        thorough: cfg.thorough,
        labels: BTreeMap::new(),
        nontrivial: false,
        key: if part.exhaustive { mix(&[idx]) } else { 0 },
        desc: String::new(),
        want_desc,
        accepted_findings: &cfg.findings,
        seen_findings: BTreeMap::new(),
    };
    let result = guarded(|| (part.run)(src, &mut cx));
    Outcome {
        result,
        labels: cx.labels,
        nontrivial: cx.nontrivial,
        key: cx.key,
        desc: cx.desc,
        findings: cx.seen_findings,
    }
}

pub struct Config {
    pub root: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub findings: BTreeSet<String>,
    pub finding_texts: BTreeMap<String, String>,
}
impl Config {
    pub fn from_env(prop: &str) -> Self {
        let root = PathBuf::from(std::env::var("STUNPBT_ROOT").unwrap_or_else(|_| "/verif".into()));
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut findings = BTreeSet::new();
        let mut finding_texts = BTreeMap::new();
        let text = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
        for line in text.lines() {
            // known: property=<id> <signature> <what fails>
            let Some(rest) = line.strip_prefix("known: property=") else { continue };
            let mut it = rest.splitn(3, ' ');
            if it.next() == Some(prop) {
                let sig = it.next().unwrap_or("").to_string();
                finding_texts.insert(sig.clone(), it.next().unwrap_or("").to_string());
                findings.insert(sig);
            }
        }
        Config { root, seed, thorough, findings, finding_texts }
    }
    fn case_seed(&self, prop: &str, part: &str, idx: u64) -> u64 {
        mix(&[self.seed, hash_bytes(prop.as_bytes()), hash_bytes(part.as_bytes()), idx])
    }
    fn scale(&self) -> f64 {
        std::env::var("STUNPBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    labels: BTreeMap<String, u64>,
    keys: HashSet<u64>,
    samples: Vec<(u64, String)>,
    findings: BTreeMap<String, String>,
    per_part: BTreeMap<&'static str, u64>,
}

struct Slot {
    case: AtomicU64,
    cpu_at_start: AtomicU64,
    clock: AtomicU64,
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
}
fn own_cpu_clock() -> i32 {
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    c
}
fn read_clock(c: i32) -> u64 {
    let mut ts = [0i64; 2];
    if unsafe { clock_gettime(c, &mut ts) } != 0 {
        return 0;
    }
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}
const IDLE: u64 = u64::MAX;
/// CPU time of one case after which it counts as not terminating (usual cases take
/// microseconds, the largest about a second).
const HANG_MS: u64 = 100_000;

struct Found {
    part: usize,
    idx: u64,
    fail: Fail,
    choices: Vec<u8>,
}

/// Exit code: 0 held, 1 violated.
pub fn run(prop: &Prop, cfg: &Config) -> i32 {
    crate::hash::self_test();
    crate::dict::self_test();
    install_panic_hook();
    let start = Instant::now();
    let deadline = start + Duration::from_secs(if cfg.thorough { 3 * 3600 } else { 600 });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let inflight = std::env::var_os("STUNPBT_INFLIGHT").and_then(|p| fs::File::create(p).ok());
    let stats = Mutex::new(Stats::default());
    let mut found: Option<Found> = None;
    let mut cut = false;

    for (pi, part) in prop.parts.iter().enumerate() {
        let n = if cfg.thorough { part.thorough } else { part.quick };
        let n = if part.exhaustive { n } else { ((n as f64) * cfg.scale()).ceil() as u64 };
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        let failing: Mutex<Option<Found>> = Mutex::new(None);
        let block = (n / (threads as u64 * 16)).clamp(1, 256);
        let slots: Vec<Slot> = (0..threads)
            .map(|_| Slot { case: AtomicU64::new(IDLE), cpu_at_start: AtomicU64::new(0), clock: AtomicU64::new(0) })
            .collect();
        let done = AtomicBool::new(false);
        let out_of_time = AtomicBool::new(false);
        std::thread::scope(|scope| {
            let watchdog = scope.spawn(|| {
                while !done.load(SeqCst) {
                    std::thread::park_timeout(Duration::from_millis(500));
                    for s in &slots {
                        let case = s.case.load(SeqCst);
                        let t0 = s.cpu_at_start.load(SeqCst);
                        if case != IDLE {
                            let now = read_clock(s.clock.load(SeqCst) as i32);
                            if now > t0 + HANG_MS && s.case.load(SeqCst) == case {
                                let fail = Fail(format!("no result after {HANG_MS} ms of CPU time"));
                                let seed = cfg.case_seed(prop.id, part.name, case);
                                let path = write_replay(prop, cfg, part, case, Err(seed), &fail, "");
                                println!("property {}: {}", prop.id, fail.0);
                                println!("VIOLATION property={} replay={}", prop.id, path.display());
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
            let workers: Vec<_> = (0..threads)
                .map(|ti| {
                    let (next, best, failing, slots, stats, out_of_time, inflight) =
                        (&next, &best, &failing, &slots, &stats, &out_of_time, &inflight);
                    scope.spawn(move || {
                        let clock = own_cpu_clock();
                        slots[ti].clock.store(clock as u32 as u64, SeqCst);
                        let mut local = Stats::default();
                        'outer: loop {
                            let lo = next.fetch_add(block, SeqCst);
                            if lo >= n {
                                break;
                            }
                            for idx in lo..(lo + block).min(n) {
                                if idx > best.load(SeqCst) {
                                    break 'outer;
                                }
                                if Instant::now() > deadline {
                                    out_of_time.store(true, SeqCst);
                                    break 'outer;
                                }
                                if let Some(f) = inflight {
                                    let mut rec = [0u8; 16];
                                    rec[..8].copy_from_slice(&(pi as u64 + 1).to_le_bytes());
                                    rec[8..].copy_from_slice(&idx.to_le_bytes());
                                    let _ = f.write_at(&rec, ti as u64 * 16);
                                }
                                slots[ti].cpu_at_start.store(read_clock(clock), SeqCst);
                                slots[ti].case.store(idx, SeqCst);
                                let mut src = Src::record(cfg.case_seed(prop.id, part.name, idx));
                                let sample = idx.is_power_of_two() && idx >= 4 && idx <= 4096 || part.exhaustive && idx < 3;
                                let o = run_case(part, idx, &mut src, cfg, sample);
                                slots[ti].case.store(IDLE, SeqCst);
                                local.evaluations += 1;
                                *local.per_part.entry(part.name).or_insert(0) += 1;
                                for (k, v) in o.labels {
                                    *local.labels.entry(k).or_insert(0) += v;
                                }
                                if o.nontrivial && local.keys.len() < 4_000_000 {
                                    let key = if o.key == 0 { hash_bytes(src.choices()) } else { o.key };
                                    local.keys.insert(mix(&[pi as u64, key]));
                                }
                                if sample && o.nontrivial && !o.desc.is_empty() {
                                    local.samples.push((mix(&[pi as u64]) & !0xffff | idx, format!("{} case {idx}: {}", part.name, o.desc)));
                                }
                                for (k, v) in o.findings {
                                    local.findings.entry(k).or_insert(v);
                                }
                                if let Err(fail) = o.result {
                                    best.fetch_min(idx, SeqCst);
                                    let mut g = failing.lock().unwrap();
                                    if g.as_ref().map_or(true, |f| idx < f.idx) {
                                        *g = Some(Found { part: pi, idx, fail, choices: src.choices().to_vec() });
                                    }
                                    break 'outer;
                                }
                            }
                        }
                        let mut g = stats.lock().unwrap();
                        g.evaluations += local.evaluations;
                        for (k, v) in local.labels {
                            *g.labels.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in local.per_part {
                            *g.per_part.entry(k).or_insert(0) += v;
                        }
                        g.keys.extend(local.keys);
                        g.samples.extend(local.samples);
                        for (k, v) in local.findings {
                            g.findings.entry(k).or_insert(v);
                        }
                    })
                })
                .collect();
            for w in workers {
                w.join().expect("worker");
            }
            done.store(true, SeqCst);
            watchdog.thread().unpark();
        });
        cut |= out_of_time.load(SeqCst);
        if let Some(f) = failing.into_inner().unwrap() {
            found = Some(f);
            break;
        }
    }
    let stats = stats.into_inner().unwrap();
    for (sig, detail) in &stats.findings {
        let text = cfg.finding_texts.get(sig).cloned().unwrap_or_default();
        println!("KNOWN-FINDING: property={} {sig} {text} (this run: {detail})", prop.id);
    }
    let mut code = 0;
    if let Some(f) = &found {
        code = 1;
        let part = &prop.parts[f.part];
        let (choices, fail, desc) = shrink(part, f, cfg);
        let path = write_replay(prop, cfg, part, f.idx, Ok(&choices), &fail, &desc);
        note_if_not_alone(prop, cfg, &path);
        println!("property {} part {} case {}: {}", prop.id, part.name, f.idx, fail.0);
        println!("input: {desc}");
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    }
    write_evidence(prop, cfg, &stats, start.elapsed(), found.is_some(), cut);
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s{}",
        prop.id,
        stats.evaluations,
        stats.keys.len(),
        start.elapsed().as_secs_f64(),
        if cut { " (stopped at the time limit)" } else { "" }
    );
    code
}

/// Says so in the replay file if the case does not fail in a process of its own.
fn note_if_not_alone(prop: &Prop, cfg: &Config, path: &Path) {
    let Ok(exe) = std::env::current_exe() else { return };
    let out = std::process::Command::new("timeout").arg("60").arg(exe).arg("replay").arg(path).env("STUNPBT_ROOT", &cfg.root).output();
    if !matches!(out.map(|o| o.status.code()), Ok(Some(0))) {
        return;
    }
    let note = format!(
        "note: fails after other cases only (something is kept between them); the whole history: cd /verif && VERIF_SEED={} ./check {}\n",
        cfg.seed, prop.id
    );
    let text = fs::read_to_string(path).unwrap_or_default();
    let _ = fs::write(path, text + &note);
}
fn shrink(part: &Part, f: &Found, cfg: &Config) -> (Vec<u8>, Fail, String) {
    let until = Instant::now() + Duration::from_secs(20);
    let mut runs = 0;
    let mut best = f.choices.clone();
    let mut fail = f.fail.clone();
    let mut desc = String::new();
    let mut try_one = |cand: &[u8], best: &mut Vec<u8>, fail: &mut Fail, desc: &mut String| -> bool {
        runs += 1;
        if runs > 20000 || Instant::now() > until {
            return false;
        }
        let mut src = Src::replay(cand);
        // On a thread of its own: what earlier cases leave behind on this one is no part of the case
        let o = std::thread::scope(|t| {
            t.spawn(|| run_case(part, f.idx, &mut src, cfg, true)).join().expect("panics are caught")
        });
        if let Err(e) = o.result {
            let mut used = src.choices().to_vec();
            while used.last() == Some(&0) {
                used.pop();
            }
            *best = used;
            *fail = e;
            *desc = o.desc;
            true
        } else {
            if desc.is_empty() {
                *desc = o.desc;
            }
            false
        }
    };
    let first = best.clone();
    if !try_one(&first, &mut best, &mut fail, &mut desc) {
        // Does not reproduce from its choices alone: leave it as it is.
        return (best, fail, desc);
    }
    loop {
        let before = best.clone();
        let mut size = 64.min(best.len().max(1));
        while size > 0 {
            let mut at = 0;
            while at < best.len() {
                let end = (at + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(at..end);
                if try_one(&cand, &mut best, &mut fail, &mut desc) {
                    continue;
                }
                if best[at..end.min(best.len())].iter().any(|b| *b != 0) {
                    let mut cand = best.clone();
                    cand[at..end].iter_mut().for_each(|b| *b = 0);
                    if try_one(&cand, &mut best, &mut fail, &mut desc) {
                        at += size;
                        continue;
                    }
                }
                at += size;
            }
            size /= 2;
        }
        for at in 0..best.len() {
            for how in 0..3 {
                if at >= best.len() || best[at] == 0 {
                    break;
                }
                let mut cand = best.clone();
                cand[at] = match how {
                    0 => cand[at] / 2,
                    1 => cand[at] & !(1 << (31 - u32::from(cand[at]).leading_zeros())),
                    _ => cand[at] - 1,
                };
                try_one(&cand, &mut best, &mut fail, &mut desc);
            }
        }
        if best == before || Instant::now() > until {
            return (best, fail, desc);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + ".."
    }
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

pub fn write_replay(prop: &Prop, cfg: &Config, part: &Part, idx: u64, choices: Result<&[u8], u64>, fail: &Fail, desc: &str) -> PathBuf {
    let dir = cfg.root.join("replays");
    let _ = fs::create_dir_all(&dir);
    let mut s = String::new();
    let _ = writeln!(s, "property: {}", prop.id);
    let _ = writeln!(s, "part: {}", part.name);
    let _ = writeln!(s, "case: {idx}");
    match choices {
        Ok(c) => {
            let h: String = c.iter().map(|b| format!("{b:02x}")).collect();
            let _ = writeln!(s, "choices: {h}");
        }
        Err(seed) => {
            let _ = writeln!(s, "seed: {seed}");
        }
    }
    if crate::dict::to_text() != "|" {
        let _ = writeln!(s, "literals: {}", crate::dict::to_text());
    }
    let _ = writeln!(s, "failure: {}", fail.0.replace('\n', " "));
    let _ = writeln!(s, "input: {}", desc.replace('\n', " "));
    let _ = writeln!(s, "replay with: cd /verif && ./check replay <this file>");
    let path = dir.join(format!("{}-{:08x}.txt", prop.id, hash_bytes(s.as_bytes()) as u32));
    let _ = fs::write(&path, s);
    path
}

/// Exit code 1 if the replayed case still fails.
pub fn replay(props: &[Prop], file: &Path) -> i32 {
    crate::hash::self_test();
    install_panic_hook();
    let text = fs::read_to_string(file).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
    crate::dict::set(&get("literals:").unwrap_or_default());
    let id = get("property:").expect("property");
    let prop = props.iter().find(|p| p.id == id).expect("known property");
    let pname = get("part:").expect("part");
    let part = prop.parts.iter().find(|p| p.name == pname).expect("known part");
    let idx = get("case:").and_then(|s| s.parse().ok()).unwrap_or(0);
    let cfg = Config::from_env(prop.id);
    let mut src = match (get("choices:"), get("seed:")) {
        (Some(c), _) => Src::replay(&unhex(&c)),
        (None, Some(s)) => Src::record(s.parse().expect("seed")),
        _ => panic!("neither choices nor seed"),
    };
    let o = run_case(part, idx, &mut src, &cfg, true);
    println!("input: {}", o.desc);
    match o.result {
        Ok(()) => {
            println!("property {} holds for this case", prop.id);
            0
        }
        Err(f) => {
            println!("property {}: {}", prop.id, f.0);
            println!("VIOLATION property={} replay={}", prop.id, file.display());
            1
        }
    }
}

/// Runs one numbered case in this process (used to attribute a crash).
pub fn one(prop: &Prop, part: usize, idx: u64) -> i32 {
    install_panic_hook();
    let cfg = Config::from_env(prop.id);
    let part = &prop.parts[part];
    let mut src = Src::record(cfg.case_seed(prop.id, part.name, idx));
    let o = run_case(part, idx, &mut src, &cfg, true);
    i32::from(o.result.is_err())
}
pub fn crash_replay(prop: &Prop, part: usize, idx: u64, what: &str) -> PathBuf {
    let cfg = Config::from_env(prop.id);
    let p = &prop.parts[part];
    let seed = cfg.case_seed(prop.id, p.name, idx);
    write_replay(prop, &cfg, p, idx, Err(seed), &Fail(what.to_string()), "")
}

/// One libFuzzer input; panics on a violation.
pub fn fuzz_one(prop: &Prop, cfg: &Config, data: &[u8]) {
    let Some((&sel, rest)) = data.split_first() else { return };
    let parts: Vec<&Part> = prop.parts.iter().filter(|p| !p.exhaustive).collect();
    if parts.is_empty() {
        return;
    }
    let part = parts[usize::from(sel) % parts.len()];
    let mut src = Src::replay(rest);
    let o = run_case(part, 0, &mut src, cfg, true);
    if let Err(f) = o.result {
        let path = write_replay(prop, cfg, part, 0, Ok(rest), &f, &o.desc);
        println!("property {} part {}: {}", prop.id, part.name, f.0);
        println!("input: {}", o.desc);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        std::process::abort();
    }
}

fn write_evidence(prop: &Prop, cfg: &Config, st: &Stats, wall: Duration, violated: bool, cut: bool) {
    let dir = cfg.root.join("evidence");
    let _ = fs::create_dir_all(&dir);
    let mut samples = st.samples.clone();
    samples.sort();
    // A few per part.
    let mut picked = vec![];
    let mut per: BTreeMap<u64, u32> = BTreeMap::new();
    for (k, s) in samples {
        let c = per.entry(k & !0xffff).or_insert(0);
        *c += 1;
        if *c <= 3 {
            picked.push(clip(&s, 700));
        }
    }
    let mut s = String::from("{\n");
    let _ = writeln!(s, " \"property\": {},", json_str(prop.id));
    let _ = writeln!(s, " \"tier\": \"{}\",", if cfg.thorough { "thorough" } else { "quick" });
    let _ = writeln!(s, " \"seed\": {},", cfg.seed);
    let _ = writeln!(s, " \"level\": \"exploration\",");
    let _ = writeln!(s, " \"coverage\": {{");
    let _ = writeln!(s, "  \"evaluations\": {},", st.evaluations);
    let _ = writeln!(s, "  \"distinct_nontrivial\": {},", st.keys.len());
    let _ = writeln!(s, "  \"rule\": {},", json_str(prop.rule));
    let list: Vec<String> = picked.iter().map(|x| json_str(x)).collect();
    let _ = writeln!(s, "  \"samples\": [\n   {}\n  ],", list.join(",\n   "));
    let map = |m: Vec<(String, u64)>| m.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ");
    let parts = st.per_part.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let _ = writeln!(s, "  \"cases_per_part\": {{{}}},", map(parts));
    let ex: Vec<String> = prop.parts.iter().filter(|p| p.exhaustive).map(|p| json_str(p.name)).collect();
    let _ = writeln!(s, "  \"fully_enumerated_parts\": [{}],", ex.join(", "));
    let _ = writeln!(s, "  \"labels\": {{{}}},", map(st.labels.clone().into_iter().collect()));
    let kf: Vec<String> = st.findings.keys().map(|k| json_str(k)).collect();
    let _ = writeln!(s, "  \"known_findings_seen\": [{}],", kf.join(", "));
    let _ = writeln!(s, "  \"stopped_at_time_limit\": {cut}");
    let _ = writeln!(s, " }},");
    let a: Vec<String> = prop.assumptions.iter().map(|x| json_str(x)).collect();
    let _ = writeln!(s, " \"assumptions\": [{}],", a.join(", "));
    let _ = writeln!(s, " \"wall_s\": {:.2},", wall.as_secs_f64());
    let _ = writeln!(s, " \"violations\": {}", u8::from(violated));
    s.push_str("}\n");
    let _ = fs::write(dir.join(format!("{}.json", prop.id)), s);
}

/// Runs the check in a child process, so that a crash is attributed to a case.
pub fn supervise(prop: &Prop) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let exe = std::env::current_exe().expect("own path");
    let file = std::env::temp_dir().join(format!("stunpbt-{}-{}", prop.id, std::process::id()));
    let status = Command::new(&exe).args(["child", prop.id]).env("STUNPBT_INFLIGHT", &file).status().expect("child");
    let slots = fs::read(&file).unwrap_or_default();
    let _ = fs::remove_file(&file);
    if let Some(code) = status.code() {
        if code == 0 || code == 1 {
            return code;
        }
        eprintln!("{}: the checking process ended with code {code}", prop.id);
        return 2;
    }
    let sig = status.signal().unwrap_or(0);
    eprintln!("{}: the checking process was ended by signal {sig}; looking for the case", prop.id);
    if sig == 9 || sig == 15 {
        return 2;
    }
    for rec in slots.chunks_exact(16) {
        let part = u64::from_le_bytes(rec[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(rec[8..].try_into().unwrap());
        if part == 0 {
            continue;
        }
        let part = part as usize - 1;
        let st = Command::new(&exe).args(["one", prop.id, &part.to_string(), &idx.to_string()]).status().expect("child");
        if let Some(sig) = st.signal() {
            let what = format!("the process is killed by signal {sig}");
            let path = crash_replay(prop, part, idx, &what);
            println!("property {} part {} case {idx}: {what}", prop.id, prop.parts[part].name);
            println!("VIOLATION property={} replay={}", prop.id, path.display());
            return 1;
        }
    }
    // Not reproduced by any of the cases alone (corrupted memory, say): still only the
    // library can have done it.
    if let Some(rec) = slots.chunks_exact(16).find(|r| r[..8] != [0; 8]) {
        let part = u64::from_le_bytes(rec[..8].try_into().unwrap()) as usize - 1;
        let idx = u64::from_le_bytes(rec[8..].try_into().unwrap());
        let what = format!("the process is killed by signal {sig} while running this case and others (not by this case alone)");
        let path = crash_replay(prop, part, idx, &what);
        println!("property {}: {what}", prop.id);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    2
}
/// Runs cases of one part without threads or files (under Miri). Panics on a violation,
/// after naming the case.
pub fn plain(prop: &str, part: &Part, seed: u64, from: u64, step: u64, until: u64, mut progress: impl FnMut(u64)) {
    let cfg = Config {
        root: PathBuf::new(),
        seed,
        thorough: false,
        findings: BTreeSet::new(),
        finding_texts: BTreeMap::new(),
    };
    let mut idx = from;
    while idx < until {
        progress(idx);
        let mut src = Src::record(cfg.case_seed(prop, part.name, idx));
        if let Err(f) = run_case(part, idx, &mut src, &cfg, false).result {
            println!("FAILED {}", f.0);
            std::process::exit(3);
        }
        idx += step;
    }
}
