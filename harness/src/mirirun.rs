//! Runs the histories of C20 under Miri, in parallel shards.
use crate::engine::Config;
use crate::props::unsafety;
use std::fmt::Write as _;
use std::fs;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const PROP: &str = "C20";

struct Shard {
    part: usize,
    from: u64,
    step: u64,
    until: u64,
}
#[derive(Default)]
struct Ran {
    cases: u64,
    last: Option<u64>,
    done: bool,
    cut: bool,
    violation: Option<String>,
    /// Miri could not run or could not interpret something.
    unable: Option<String>,
    leak: bool,
}

fn command(harness: &Path, seed: u64, s: &Shard) -> Command {
    let leaks_count = unsafety::parts()[s.part].1;
    let flags = format!("-Zmiri-tree-borrows{}", if leaks_count { "" } else { " -Zmiri-ignore-leaks" });
    let mut c = Command::new("cargo");
    c.current_dir(harness)
        .env("MIRIFLAGS", flags)
        .env_remove("RUSTFLAGS")
        .env_remove("LD_PRELOAD")
        .args(["+nightly", "miri", "run", "--quiet", "--offline", "--target-dir", "target/miri", "--bin", "stunmiri", "--"])
        .args([s.part as u64, seed, s.from, s.step, s.until].map(|n| n.to_string()));
    c
}

fn run_shard(harness: &Path, seed: u64, s: &Shard, limit: Duration) -> Ran {
    use std::os::unix::process::CommandExt;
    let mut r = Ran::default();
    let mut c = command(harness, seed, s);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0);
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            r.unable = Some(format!("cannot start cargo miri: {e}"));
            return r;
        }
    };
    let (mut out, mut err) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let reader = |f: &mut dyn Read| {
        let mut v = vec![];
        let _ = f.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    };
    let (status, out, err) = std::thread::scope(|sc| {
        let o = sc.spawn(|| reader(&mut out));
        let e = sc.spawn(|| reader(&mut err));
        let start = Instant::now();
        let status = loop {
            match child.try_wait() {
                Ok(Some(st)) => break Some(st),
                Ok(None) if start.elapsed() < limit => std::thread::sleep(Duration::from_millis(50)),
                _ => {
                    // The whole group: cargo, the runner and the interpreter.
                    extern "C" {
                        fn kill(pid: i32, sig: i32) -> i32;
                    }
                    unsafe { kill(-(child.id() as i32), 9) };
                    let _ = child.wait();
                    break None;
                }
            }
        };
        (status, o.join().unwrap(), e.join().unwrap())
    });
    for l in out.lines() {
        if let Some(n) = l.strip_prefix("CASE ").and_then(|n| n.parse().ok()) {
            r.cases += 1;
            r.last = Some(n);
        }
        if let Some(f) = l.strip_prefix("FAILED ") {
            r.violation = Some(f.to_string());
        }
        r.done |= l == "DONE";
    }
    let line = |pat: &str| err.lines().find(|l| l.contains(pat)).map(|l| l.trim().to_string());
    let started = r.last.is_some();
    if r.violation.is_none() {
        match status {
            None => r.cut = true,
            Some(st) if st.success() => {}
            Some(st) => {
                let ub = line("Undefined Behavior").or_else(|| line("abnormal termination"));
                let leak = line("memory leaked");
                if started && ub.is_some() {
                    r.violation = ub;
                } else if started && r.done && leak.is_some() {
                    r.violation = leak;
                    r.leak = true;
                } else {
                    let tail: Vec<&str> = err.lines().rev().take(5).collect();
                    r.unable = Some(format!("{st}: {}", tail.into_iter().rev().collect::<Vec<_>>().join(" | ")));
                }
            }
        }
    }
    r
}

fn write_replay(cfg: &Config, s: &Shard, what: &str) -> PathBuf {
    let dir = cfg.root.join("replays");
    let _ = fs::create_dir_all(&dir);
    let text = format!(
        "property: {PROP}\nmiri: {} {} {} {} {}\npart: {}\nfailure: {what}\nreplay with: cd /verif && ./check replay <this file>\n",
        s.part,
        cfg.seed,
        s.from,
        s.step,
        s.until,
        unsafety::parts()[s.part].0.name
    );
    let path = dir.join(format!("{PROP}-miri-{}-{}.txt", s.part, s.from));
    let _ = fs::write(&path, text);
    path
}

/// Cuts a leaking range down to one case where that leaks alone.
fn narrow(harness: &Path, seed: u64, s: Shard) -> Shard {
    let mut s = s;
    let until = Instant::now() + Duration::from_secs(120);
    loop {
        let n = (s.until - s.from).div_ceil(s.step);
        if n <= 1 || Instant::now() > until {
            return s;
        }
        let mid = s.from + n / 2 * s.step;
        let first = Shard { until: mid, ..s };
        if run_shard(harness, seed, &first, Duration::from_secs(60)).violation.is_some() {
            s = first;
            continue;
        }
        let second = Shard { from: mid, ..s };
        if run_shard(harness, seed, &second, Duration::from_secs(60)).violation.is_some() {
            s = second;
            continue;
        }
        return s;
    }
}

/// The exit code of the check, after the native part has passed.
pub fn run(cfg: &Config) -> i32 {
    let start = Instant::now();
    let harness = cfg.root.join("harness");
    let parts = unsafety::parts();
    let (per_part, limit) = if cfg.thorough { (12_000, 5400) } else { (250, 240) };
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) as u64;
    // Builds the interpreted program; no case is run.
    let first = run_shard(&harness, cfg.seed, &Shard { part: 0, from: 0, step: 1, until: 0 }, Duration::from_secs(400));
    let mut unable = first.unable;
    let mut cases = vec![0u64; parts.len()];
    let mut cut = first.cut;
    let mut bad: Option<(Shard, Ran)> = None;
    if unable.is_none() && !cut {
        let results: Vec<(Shard, Ran)> = std::thread::scope(|sc| {
            let handles: Vec<_> = (0..threads)
                .map(|t| {
                    let (harness, parts) = (&harness, &parts);
                    sc.spawn(move || {
                        let end = start + Duration::from_secs(limit);
                        let mut out = vec![];
                        for i in 0..parts.len() {
                            // Parts in different order in different shards.
                            let part = (i + t as usize) % parts.len();
                            let s = Shard { part, from: t, step: threads, until: per_part };
                            let left = end.saturating_duration_since(Instant::now()).max(Duration::from_secs(5));
                            let r = run_shard(harness, cfg.seed, &s, left / (parts.len() - i) as u32 * 2);
                            let stop = r.violation.is_some() || r.unable.is_some();
                            out.push((s, r));
                            if stop {
                                break;
                            }
                        }
                        out
                    })
                })
                .collect();
            handles.into_iter().flat_map(|h| h.join().expect("shard")).collect()
        });
        for (s, r) in results {
            cases[s.part] += r.cases;
            cut |= r.cut;
            if r.unable.is_some() && unable.is_none() {
                unable = r.unable.clone();
            }
            if r.violation.is_some() && bad.as_ref().map_or(true, |b| (s.part, r.last) < (b.0.part, b.1.last)) {
                bad = Some((s, r));
            }
        }
    }
    let mut code = 0;
    if let Some((s, r)) = &bad {
        code = 1;
        let s = if r.leak {
            narrow(&harness, cfg.seed, Shard { ..*s })
        } else {
            let last = r.last.unwrap_or(s.from);
            Shard { part: s.part, from: last, step: 1, until: last + 1 }
        };
        let what = r.violation.clone().unwrap_or_default();
        let path = write_replay(cfg, &s, &what);
        println!("property {PROP} under Miri, part {} case {}..{}: {what}", parts[s.part].0.name, s.from, s.until);
        println!("VIOLATION property={PROP} replay={}", path.display());
    }
    if let Some(u) = &unable {
        println!("{PROP}: Miri could not run everything, its part of the check is incomplete: {u}");
    }
    let total: u64 = cases.iter().sum();
    let mut j = String::from("  \"miri\": {");
    let _ = write!(j, "\"evaluations\": {total}, \"model\": \"Tree Borrows\", \"leak_check_in_parts\": [0, 1, 2], \"cases_per_part\": {cases:?}, ");
    let _ = write!(j, "\"unable\": {}, ", unable.as_deref().map_or("null".into(), crate::engine::json_str));
    let _ = write!(j, "\"stopped_at_time_limit\": {cut}, \"wall_s\": {:.1}, \"violations\": {code}}},\n", start.elapsed().as_secs_f64());
    let file = cfg.root.join("evidence").join(format!("{PROP}.json"));
    if let Ok(text) = fs::read_to_string(&file) {
        let text = text.replacen("  \"stopped_at_time_limit\"", &format!("{j}  \"stopped_at_time_limit\""), 1);
        let text = if code == 1 { text.replacen("\"violations\": 0\n}", "\"violations\": 1\n}", 1) } else { text };
        let _ = fs::write(&file, text);
    }
    println!("{PROP}: {total} cases under Miri, {:.1} s{}", start.elapsed().as_secs_f64(), if cut { " (stopped at the time limit)" } else { "" });
    code
}

/// The replay of a file written above; none if it is not one.
pub fn replay(cfg: &Config, file: &Path) -> Option<i32> {
    let text = fs::read_to_string(file).ok()?;
    let n: Vec<u64> = text.lines().find_map(|l| l.strip_prefix("miri: "))?.split(' ').filter_map(|n| n.parse().ok()).collect();
    let s = Shard { part: n[0] as usize, from: n[2], step: n[3], until: n[4] };
    let r = run_shard(&cfg.root.join("harness"), n[1], &s, Duration::from_secs(800));
    Some(match (r.violation, r.unable) {
        (Some(v), _) => {
            println!("property {PROP}: {v}");
            println!("VIOLATION property={PROP} replay={}", file.display());
            1
        }
        (None, Some(u)) => {
            println!("Miri cannot run this case: {u}");
            2
        }
        _ => {
            println!("property {PROP} holds for this case");
            0
        }
    })
}
