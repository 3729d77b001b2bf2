//! Drives one property: generates cases in parallel, classifies them, shrinks
//! the first failure, and writes the evidence and replay files.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use serde_json::{Value as J, json};

use crate::r#gen::{Gen, mix, shrink};

#[derive(Debug, Clone)]
pub struct Fail {
    pub kind: String,
    pub detail: String,
}

impl Fail {
    pub fn new(kind: impl Into<String>, detail: impl Into<String>) -> Self {
        Fail { kind: kind.into(), detail: detail.into() }
    }
}

#[macro_export]
macro_rules! fail {
    ($kind:expr, $($arg:tt)*) => { return Err($crate::runner::Fail::new($kind, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $kind:expr, $($arg:tt)*) => { if !$cond { $crate::fail!($kind, $($arg)*) } };
}

pub type R = Result<(), Fail>;

/// One generated case: the choices behind it and what it was.
pub struct Case {
    pub g: Gen,
    /// The case, written out.
    pub text: String,
    pub labels: Vec<String>,
    pub nontrivial: bool,
}

impl Case {
    fn new(g: Gen) -> Self {
        Case { g, text: String::new(), labels: Vec::new(), nontrivial: false }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn show(&mut self, s: &str) {
        if !self.text.is_empty() {
            self.text.push_str("\n----\n");
        }
        self.text.push_str(s);
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: fn(&mut Case) -> R,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Specific inputs on which the property is known to fail, by key. The
    /// generators stay clear of them; each is checked on its own.
    pub known: &'static [Known],
}

pub struct Known {
    pub key: &'static str,
    /// How it fails.
    pub kind: &'static str,
    pub f: fn() -> R,
}

thread_local! {
    static IN_SUT: RefCell<bool> = const { RefCell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Run code under test. A panic in it is a failure of the property; a panic
/// anywhere else is a bug of the harness.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let before = IN_SUT.with(|s| s.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|s| *s.borrow_mut() = before);
    r.map_err(|_| Fail::new("panic", format!("{what} panicked: {}", PANIC.with(|p| p.borrow().clone()))))
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = msg.clone());
        if !IN_SUT.with(|s| *s.borrow()) {
            eprintln!("harness panic: {msg}");
        }
    }));
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn case_seed(p: &Prop, idx: usize) -> u64 {
    let id: u64 = p.id.bytes().fold(0, |a, b| a * 131 + b as u64);
    mix(&[seed(), id, idx as u64])
}

fn verif() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Outcome of one case; `Err(None)` is a harness panic.
fn run_case(p: &Prop, g: Gen) -> (Case, Result<(), Option<Fail>>) {
    let mut case = Case::new(g);
    let r = panic::catch_unwind(AssertUnwindSafe(|| (p.f)(&mut case)));
    IN_SUT.with(|s| *s.borrow_mut() = false);
    let r = match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(f)) => Err(Some(f)),
        Err(_) => Err(None),
    };
    (case, r)
}

fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut end = n;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}… [{} bytes]", &s[..end], s.len())
}

fn write_replay(p: &Prop, choices: &[u64], text: &str, fail: &Fail) -> PathBuf {
    let dir = verif().join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", p.id, hash(&format!("{choices:?}{}", fail.kind))));
    let body = json!({
        "property": p.id, "kind": fail.kind, "detail": fail.detail,
        "choices": choices, "case": text,
        "how": format!("bash /verif/run.sh replay {}", path.display()),
    });
    let _ = fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    path
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(p: &Prop, tier: &str, started: Instant, evaluations: usize, distinct: usize, labels: &BTreeMap<String, usize>, samples: &[String], violations: usize) {
    let dir = verif().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let samples: Vec<J> = samples.iter().map(|s| J::String(clip(s, 3000))).collect();
    let body = json!({
        "property": p.id, "tier": tier, "seed": seed(), "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples,
            "classes": labels,
        },
        "assumptions": p.assumptions,
        "wall_s": (started.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&body).unwrap()).expect("evidence");
}

fn inflight_path(p: &Prop, pid: u32) -> PathBuf {
    verif().join("replays").join(format!(".inflight-{}-{}", p.id, pid))
}

const THREADS: usize = 8;
const STACK: usize = 512 << 20;
/// A case that takes longer than this (ordinary cases take milliseconds) is
/// rerun alone before anything is concluded from it.
const HANG: Duration = Duration::from_secs(60);

/// Child process: run every case.
pub fn worker(p: &'static Prop, tier: &str) -> i32 {
    install_hook();
    let started = Instant::now();
    let n = match std::env::var("VERIF_CASES").ok().and_then(|v| v.parse().ok()) {
        Some(n) => n,
        None if tier == "thorough" => p.thorough,
        None => p.quick,
    };
    // A quick run ends in time on a slow machine too, with fewer cases.
    let budget = if tier == "thorough" { Duration::MAX } else { Duration::from_secs(360) };
    let _ = fs::create_dir_all(verif().join("replays"));
    let inflight = fs::File::create(inflight_path(p, std::process::id())).expect("inflight file");
    inflight.write_all_at(&[0xff; THREADS * 8], 0).unwrap();
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let since: Vec<AtomicU64> = (0..THREADS).map(|_| AtomicU64::new(u64::MAX)).collect();
    let failure: Mutex<Option<(usize, Vec<u64>, Fail)>> = Mutex::new(None);
    let broken = AtomicBool::new(false);
    #[derive(Default)]
    struct Stats {
        labels: BTreeMap<String, usize>,
        keys: HashSet<u64>,
        samples: Vec<(usize, String)>,
    }
    let stats: Mutex<Stats> = Mutex::new(Stats::default());
    let finished = AtomicBool::new(false);
    std::thread::scope(|scope| {
        let handles: Vec<_> = (0..THREADS).map(|t| {
            let (next, done, stop, since, failure, broken, stats, inflight) = (&next, &done, &stop, &since, &failure, &broken, &stats, &inflight);
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(scope, move || {
                let mut local = Stats::default();
                loop {
                    let idx = next.fetch_add(1, Ordering::Relaxed);
                    if idx >= n || stop.load(Ordering::Relaxed) || started.elapsed() > budget {
                        break;
                    }
                    let _ = inflight.write_all_at(&(idx as u64).to_le_bytes(), t as u64 * 8);
                    since[t].store(started.elapsed().as_millis() as u64, Ordering::Relaxed);
                    let (case, r) = run_case(p, Gen::random(case_seed(p, idx)));
                    since[t].store(u64::MAX, Ordering::Relaxed);
                    done.fetch_add(1, Ordering::Relaxed);
                    for l in &case.labels {
                        *local.labels.entry(l.clone()).or_default() += 1;
                    }
                    if case.nontrivial && local.keys.insert(hash(&case.text)) && local.samples.len() < 3 && case.text.len() > 40 {
                        local.samples.push((idx, case.text.clone()));
                    }
                    match r {
                        Ok(()) => {}
                        Err(None) => {
                            eprintln!("harness error in case {idx} of {}", p.id);
                            broken.store(true, Ordering::Relaxed);
                            stop.store(true, Ordering::Relaxed);
                        }
                        Err(Some(f)) => {
                            let mut cur = failure.lock().unwrap();
                            if cur.as_ref().is_none_or(|c| idx < c.0) {
                                *cur = Some((idx, case.g.rec.clone(), f));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                let _ = inflight.write_all_at(&[0xff; 8], t as u64 * 8);
                let mut s = stats.lock().unwrap();
                for (k, v) in local.labels {
                    *s.labels.entry(k).or_default() += v;
                }
                s.keys.extend(local.keys);
                s.samples.extend(local.samples);
            }).unwrap()
        }).collect();
        let watchdog = scope.spawn(|| {
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let now = started.elapsed().as_millis() as u64;
                for s in &since {
                    let t = s.load(Ordering::Relaxed);
                    if t != u64::MAX && now.saturating_sub(t) > HANG.as_millis() as u64 {
                        std::process::exit(75);
                    }
                }
            }
        });
        for h in handles {
            let _ = h.join();
        }
        finished.store(true, Ordering::Relaxed);
        let _ = watchdog.join();
    });
    let _ = fs::remove_file(inflight_path(p, std::process::id()));
    let mut s = stats.into_inner().unwrap();
    s.samples.sort();
    let samples: Vec<String> = s.samples.into_iter().take(5).map(|x| x.1).collect();
    let failure = failure.into_inner().unwrap();
    if broken.load(Ordering::Relaxed) && failure.is_none() {
        return 2;
    }
    let listed = fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    let mut known_failure = None;
    for k in p.known {
        let r = (k.f)();
        let line = listed.lines().find(|l| l.starts_with(&format!("finding: property={} key={} ", p.id, k.key)));
        match (r, line) {
            (Err(f), Some(l)) if f.kind == k.kind => println!("KNOWN-FINDING: property={} {}", p.id, l.splitn(4, ' ').nth(3).unwrap_or("")),
            (Err(f), _) => known_failure = Some((k.key, f)),
            (Ok(()), _) => {}
        }
    }
    if let (Some((key, f)), true) = (known_failure, failure.is_none()) {
        println!("property {} failed on the input {key}: {}\n{}", p.id, f.kind, f.detail);
        let path = write_replay(p, &[], key, &f);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        write_evidence(p, tier, started, done.load(Ordering::Relaxed), s.keys.len(), &s.labels, &samples, 1);
        return 1;
    }
    let code = match failure {
        None => 0,
        Some((idx, choices, fail)) => {
            println!("property {} failed on case {idx}: {}\n{}", p.id, fail.kind, clip(&fail.detail, 4000));
            report(p, choices, fail);
            1
        }
    };
    write_evidence(p, tier, started, done.load(Ordering::Relaxed), s.keys.len(), &s.labels, &samples, code as usize);
    if code == 0 {
        println!("{}: held on {} cases ({} distinct non-trivial), {:.1}s", p.id, done.load(Ordering::Relaxed), s.keys.len(), started.elapsed().as_secs_f64());
    }
    code
}

fn report(p: &'static Prop, choices: Vec<u64>, fail: Fail) {
    let kind = fail.kind.clone();
    let (best, text, last) = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let deadline = Instant::now() + Duration::from_secs(60);
        let best = shrink(choices.clone(), 6000, deadline, |c| {
            let (case, r) = run_case(p, Gen::replay(c.to_vec()));
            match r {
                Err(Some(f)) if f.kind == kind => Some(case.g.rec),
                _ => None,
            }
        });
        let (case, r) = run_case(p, Gen::replay(best.clone()));
        let last = match r {
            Err(Some(f)) => f,
            _ => fail,
        };
        (best, case.text, last)
    }).unwrap().join().unwrap();
    println!("minimal case:\n{}\n{}: {}", clip(&text, 4000), last.kind, clip(&last.detail, 6000));
    let path = write_replay(p, &best, &text, &last);
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

/// Run one case alone, by index or by choices.
pub fn one(p: &'static Prop, choices: Result<usize, Vec<u64>>, verbose: bool) -> i32 {
    install_hook();
    let (case, r) = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let g = match choices {
            Ok(idx) => Gen::random(case_seed(p, idx)),
            Err(c) => Gen::replay(c),
        };
        run_case(p, g)
    }).unwrap().join().unwrap();
    if verbose {
        println!("{}", case.text);
    }
    match r {
        Ok(()) => 0,
        Err(None) => 2,
        Err(Some(f)) => {
            if verbose {
                println!("{}: {}", f.kind, f.detail);
            }
            1
        }
    }
}

enum Death {
    Abort(String),
    Hang,
    Fine,
    Unclear,
}

fn isolated(args: &[String], limit: Duration) -> Death {
    let Ok(mut child) = Command::new(std::env::current_exe().unwrap()).args(args).stdout(Stdio::null()).stderr(Stdio::null()).spawn() else {
        return Death::Unclear;
    };
    let t0 = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                return match st.signal() {
                    Some(s) if [4, 6, 7, 8, 11].contains(&s) => Death::Abort(format!("killed by signal {s} (stack overflow, abort or memory fault)")),
                    Some(_) => Death::Unclear,
                    None => Death::Fine,
                };
            }
            Ok(None) if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                return Death::Hang;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(5)),
            Err(_) => return Death::Unclear,
        }
    }
}

/// Parent process: run the worker in a child, so that an abort or a hang of
/// the code under test becomes a reported failure.
pub fn run(p: &'static Prop, tier: &str) -> i32 {
    let started = Instant::now();
    let mut child = match Command::new(std::env::current_exe().unwrap()).args(["worker", p.id, tier]).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start worker: {e}");
            return 2;
        }
    };
    let pid = child.id();
    let status = child.wait().expect("wait");
    if let Some(code) = status.code()
        && (code == 0 || code == 1 || code == 2)
    {
        return code;
    }
    let path = inflight_path(p, pid);
    let bytes = fs::read(&path).unwrap_or_default();
    let _ = fs::remove_file(&path);
    let mut cands: Vec<u64> = bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|&i| i != u64::MAX).collect();
    cands.sort();
    for idx in cands {
        let args = vec!["one".into(), p.id.into(), idx.to_string()];
        let fail = match isolated(&args, HANG) {
            Death::Abort(m) => Fail::new("abort", m),
            Death::Hang => Fail::new("hang", format!("no result within {} s", HANG.as_secs())),
            _ => continue,
        };
        // Recover the choices in a child that records them without running the
        // code under test to the end: not possible in general, so the replay
        // names the case by seed and index.
        let body = json!({"property": p.id, "kind": fail.kind, "detail": fail.detail, "seed": seed(), "index": idx,
            "how": format!("VERIF_SEED={} bash /verif/run.sh one {} {}", seed(), p.id, idx)});
        let rp = verif().join("replays").join(format!("{}-{}-{}.json", p.id, seed(), idx));
        let _ = fs::write(&rp, serde_json::to_string_pretty(&body).unwrap());
        write_evidence(p, tier, started, idx as usize, 0, &BTreeMap::new(), &[format!("case {idx}")], 1);
        println!("{}: case {idx}: {}", p.id, fail.detail);
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        let _ = std::io::stdout().flush();
        return 1;
    }
    eprintln!("worker ended with {status:?} and no case reproduces it");
    2
}

pub fn replay(props: &'static [Prop], path: &Path) -> i32 {
    let j: J = serde_json::from_str(&fs::read_to_string(path).expect("replay file")).expect("replay json");
    let p = props.iter().find(|p| p.id == j["property"]).expect("property");
    match j["choices"].as_array() {
        Some(c) => one(p, Err(c.iter().map(|v| v.as_u64().unwrap()).collect()), true),
        None => one(p, Ok(j["index"].as_u64().unwrap() as usize), true),
    }
}
