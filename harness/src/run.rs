//! Runner: generates cases on all cores, shrinks the first failure, writes the replay file and the
//! evidence.

use crate::gen::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type Res = Result<(), String>;
/// marks failures that count only when they happen again (the machine may have interfered)
pub const RECHECK: &str = "again: ";

/// Counts allocations per thread and refuses absurd ones: a length field taken from the peer must
/// not make the client ask for memory it cannot need. A refused allocation aborts the process,
/// which the supervisor turns into a violation with a replay.
pub struct Alloc;
pub const ALLOC_LIMIT: usize = 1 << 30;
thread_local! {
    static MAX_ALLOC: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size());
        if l.size() > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size());
        if l.size() > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        note(n);
        if n > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}
#[inline]
fn note(n: usize) {
    let _ = MAX_ALLOC.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
}
pub fn reset_max_alloc() {
    MAX_ALLOC.with(|m| m.set(0));
}
/// largest single allocation of this thread since the last reset
pub fn max_alloc() -> usize {
    MAX_ALLOC.with(|m| m.get())
}

/// where the running cases are recorded, so that the supervisor can tell which one killed the process
static SLOTS: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
pub fn open_slots(path: &str) {
    if let Ok(f) = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(path) {
        let _ = SLOTS.set(f);
    }
}
fn slot(thread: usize, check: usize, case: u64) {
    if let Some(f) = SLOTS.get() {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&1u64.to_le_bytes());
        b[8..16].copy_from_slice(&(check as u64).to_le_bytes());
        b[16..].copy_from_slice(&case.to_le_bytes());
        let _ = f.write_at(&b, thread as u64 * 24);
    }
}

#[derive(Clone, Copy)]
pub struct Check {
    pub name: &'static str,
    pub what: &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// worker threads (0 = all cores)
    pub threads: usize,
    pub f: fn(&mut Src) -> Res,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub checks: &'static [Check],
    /// known findings: (what fails, probe returning Err while the defect is there)
    pub findings: &'static [(&'static str, fn() -> Res)],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("VH_TRACE").is_ok() {
            eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            // the first panic of a case is the interesting one
            if p.is_none() {
                *p = Some((msg, loc));
            }
        });
    }));
}
pub fn take_panic() -> Option<String> {
    let (msg, loc) = PANIC.with(|p| p.borrow_mut().take())?;
    if loc.starts_with("src/") {
        harness_error(&format!("panic in the harness: {msg} at {loc}"));
    }
    Some(format!("panic: {msg} at {loc}"))
}
/// something is wrong with the check itself or the machine, not with the client
pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    println!("HARNESS-ERROR: {msg}");
    std::process::exit(3);
}

fn run_once(f: fn(&mut Src) -> Res, src: &mut Src) -> Res {
    take_panic();
    let r = catch_unwind(AssertUnwindSafe(|| f(src)));
    let p = take_panic();
    match (r, p) {
        // a panic that something swallowed still is a panic of the code under test
        (Ok(Ok(())), Some(p)) => Err(p),
        (Ok(Ok(())), None) => Ok(()),
        (Ok(Err(e)), _) => {
            if let Some(h) = e.strip_prefix("HARNESS:") {
                harness_error(h);
            }
            Err(e)
        }
        (Err(_), p) => Err(p.unwrap_or_else(|| "panic".into())),
    }
}

/// developer aid: run everything, group the failures by message
pub fn survey(p: &Prop, seed: u64, only: Option<&str>, scale: f64) {
    for c in p.checks {
        if only.map(|o| o != c.name).unwrap_or(false) {
            continue;
        }
        let n = (c.quick as f64 * scale).ceil() as usize;
        let next = AtomicUsize::new(0);
        let groups: Mutex<BTreeMap<String, (usize, String, String, Vec<u64>)>> = Mutex::new(BTreeMap::new());
        std::thread::scope(|s| {
            for _ in 0..8 {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            return;
                        }
                        let mut src = Src::random(mix(seed, c.name, i as u64));
                        if let Err(e) = run_once(c.f, &mut src) {
                            if std::env::var_os("VH_FIRST").is_some() {
                                // mutation testing: the first repeatable failure ends everything
                                let unsure = e.starts_with("HANG") || e.starts_with(RECHECK) || e.contains("imeout");
                                let again = |_| run_once(c.f, &mut Src::replay(src.tape.clone())).is_err();
                                if !unsure || (0..2).all(again) {
                                    println!("FIRST {} {} {}", p.id, c.name, clip(&e, 300).replace('\n', " "));
                                    std::process::exit(9);
                                }
                                continue;
                            }
                            let mut key: String = String::new();
                            for ch in e.chars().take(160) {
                                if !ch.is_ascii_digit() || e.starts_with("panic") {
                                    key.push(ch);
                                }
                            }
                            let key = if e.starts_with("panic") {
                                e.rsplit(" at ").next().unwrap_or("").to_string()
                            } else {
                                key.split(':').take(2).collect::<Vec<_>>().join(":")
                            };
                            let mut g = groups.lock().unwrap();
                            let en = g.entry(key).or_insert_with(|| (0, e.clone(), src.sample.clone().unwrap_or_default(), src.tape.clone()));
                            en.0 += 1;
                            if src.tape.len() < en.3.len() {
                                *en = (en.0, e, src.sample.clone().unwrap_or_default(), src.tape.clone());
                            }
                        }
                    })
                    .unwrap();
            }
        });
        println!("== {} {}: {} cases", p.id, c.name, n);
        let mut gs: Vec<_> = groups.into_inner().unwrap().into_iter().collect();
        gs.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
        for (_, (k, e, s, tape)) in gs.iter().take(25) {
            println!("{k} x {}\n      case: {}", clip(e, 300), clip(s, 250));
            if e.starts_with("HANG") {
                let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
                let _ = std::fs::write("/tmp/hang.replay", format!("property {}\ncheck {}\ntape {}\n", p.id, c.name, t.join(" ")));
            }
        }
    }
}

fn mix(seed: u64, name: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h ^ i.wrapping_mul(0xD6E8FEB86659FD93));
    r.next()
}

pub struct Outcome {
    pub evaluations: usize,
    pub skipped: usize,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, usize>,
    pub samples: Vec<String>,
    pub excluded: BTreeMap<String, usize>,
    pub fail: Option<(u64, Vec<u64>, String)>,
    pub wall: f64,
}

fn tape_hash(t: &[u64]) -> u64 {
    let mut h = 0u64;
    for x in t {
        h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    }
    h
}

/// a failure that a stalled machine could have caused: it must happen again to count
fn suspicious(e: &str) -> bool {
    e.starts_with("HANG") || e.starts_with(RECHECK) || e.contains("imeout")
}
pub fn run_check(c: &Check, ci: usize, seed: u64, n: usize, cap_s: f64) -> Outcome {
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let out = Mutex::new(Outcome {
        evaluations: 0,
        skipped: 0,
        nontrivial: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        excluded: BTreeMap::new(),
        fail: None,
        wall: 0.0,
    });
    let threads = if c.threads > 0 {
        c.threads
    } else {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4)
    };
    std::thread::scope(|s| {
        for th in 0..threads.min(n.max(1)) {
            let (next, stop, out) = (&next, &stop, &out);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || loop {
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        return;
                    }
                    if t0.elapsed().as_secs_f64() > cap_s {
                        out.lock().unwrap().skipped += 1;
                        continue;
                    }
                    slot(th, ci, i as u64);
                    let mut src = Src::random(mix(seed, c.name, i as u64));
                    let mut r = run_once(c.f, &mut src);
                    let mut flaky = false;
                    if let Err(e) = &r {
                        if suspicious(e) {
                            let tape = src.tape.clone();
                            if (0..2).any(|_| run_once(c.f, &mut Src::replay(tape.clone())).is_ok()) {
                                eprintln!("{}: not reproducible, ignored: {}", c.name, clip(e, 300));
                                r = Ok(());
                                flaky = true;
                            }
                        }
                    }
                    let mut o = out.lock().unwrap();
                    o.evaluations += 1;
                    if flaky {
                        *o.excluded.entry("failed once and not again".into()).or_default() += 1;
                    }
                    if src.nontrivial {
                        o.nontrivial.insert(tape_hash(&src.tape));
                    }
                    for l in &src.labels {
                        *o.labels.entry(l).or_default() += 1;
                    }
                    for l in src.excluded.drain(..) {
                        *o.excluded.entry(l).or_default() += 1;
                    }
                    if let Some(s) = src.sample.take() {
                        if o.samples.len() < 4 && src.nontrivial {
                            o.samples.push(s);
                        }
                    }
                    if let Err(e) = r {
                        // the earliest case wins, so that a run is reproducible
                        if o.fail.as_ref().map(|f| (i as u64) < f.0).unwrap_or(true) {
                            o.fail = Some((i as u64, src.tape.clone(), e));
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });
    let mut o = out.into_inner().unwrap();
    o.wall = t0.elapsed().as_secs_f64();
    o
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...");
        t
    }
}

fn write_replay(dir: &str, id: &str, check: &str, tape: &[u64], sample: &str, msg: &str) -> String {
    let rdir = format!("{dir}/replays");
    let _ = std::fs::create_dir_all(&rdir);
    let path = format!("{rdir}/{}-{}-{:08x}.replay", id, check, tape_hash(tape) as u32);
    let tape_s: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let body = format!(
        "property {}\ncheck {}\ntape {}\n\ncase: {}\nfailure: {}\n",
        id,
        check,
        tape_s.join(" "),
        sample,
        msg
    );
    if let Err(e) = std::fs::write(&path, body) {
        harness_error(&format!("write {path}: {e}"));
    }
    path
}

/// Runs the property in a child process. When the child is killed (abort, segmentation fault, out of
/// memory), the case that did it is found, shrunk in further child processes and reported.
pub fn supervise(p: &Prop, args: &[String], seed: u64, tier: &str, dir: &str) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&format!("exe: {e}")));
    let tmp = format!("{}/vh-{}-{}", std::env::temp_dir().display(), std::process::id(), p.id);
    let _ = std::fs::create_dir_all(&tmp);
    let slots = format!("{tmp}/slots");
    let status = std::process::Command::new(&exe)
        .args(args)
        .arg("--child")
        .env("VH_SLOTS", &slots)
        .env("RUST_BACKTRACE", "0")
        .status()
        .unwrap_or_else(|e| harness_error(&format!("spawn: {e}")));
    if let Some(c) = status.code() {
        let _ = std::fs::remove_dir_all(&tmp);
        return c;
    }
    eprintln!("[{}] the process running the cases died: {status}", p.id);
    let known: Option<(usize, u64, Vec<u64>, String)> = std::fs::read_to_string(format!("{slots}.fail")).ok().and_then(|t| {
        let mut it = t.splitn(4, '\n');
        let c: usize = it.next()?.parse().ok()?;
        let i = it.next()?.parse().ok()?;
        let tape = it.next()?.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        (c < p.checks.len()).then(|| (c, i, tape, it.next().unwrap_or("").to_string()))
    });
    let soft = known.is_some();
    let mut cases = vec![];
    for b in std::fs::read(&slots).unwrap_or_default().chunks(24) {
        if b.len() == 24 && b[0] == 1 {
            let c = u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize;
            let i = u64::from_le_bytes(b[16..24].try_into().unwrap());
            if c < p.checks.len() {
                cases.push((c, i));
            }
        }
    }
    let top = known.as_ref().map(|k| k.0).unwrap_or(cases.iter().map(|x: &(usize, u64)| x.0).max().unwrap_or(0));
    let tape_file = format!("{tmp}/tape");
    let log_file = format!("{tmp}/log");
    // runs one case or tape in a child: Some(death, if it died)
    let run1 = |what: &[String]| -> (Option<String>, String) {
        let log = std::fs::File::create(&log_file).unwrap_or_else(|e| harness_error(&format!("log: {e}")));
        let mut ch = std::process::Command::new(&exe)
            .args(what)
            .env("VH_TAPE", &tape_file)
            .env("RUST_BACKTRACE", "0")
            .stdout(std::process::Stdio::null())
            .stderr(log)
            .spawn()
            .unwrap_or_else(|e| harness_error(&format!("spawn: {e}")));
        let t = Instant::now();
        let st = loop {
            match ch.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) if t.elapsed().as_secs() > 90 => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                _ => std::thread::sleep(std::time::Duration::from_millis(1)),
            }
        };
        let err = String::from_utf8_lossy(&std::fs::read(&log_file).unwrap_or_default()).to_string();
        match st {
            Some(s) if s.code() == Some(1) && soft => {
                (Some(err.lines().find_map(|l| l.strip_prefix("failure: ")).unwrap_or("failed").to_string()), err)
            }
            Some(s) if s.code().is_none() => (Some(format!("the process died: {s}: {}", clip(err.trim(), 400))), err),
            _ => (None, err),
        }
    };
    let s = |x: &str| x.to_string();
    if let Some((c, i, _, _)) = &known {
        cases = vec![(*c, *i)];
    }
    for (c, i) in cases.iter().filter(|x| x.0 == top) {
        let ck = &p.checks[*c];
        let one = [s("one"), s(p.id), s(ck.name), seed.to_string(), i.to_string()];
        let d = match &known {
            Some(k) => Some(k.3.clone()),
            None => run1(&one).0,
        };
        if let Some(msg) = d {
            let read_tape = || -> Vec<u64> {
                std::fs::read(&tape_file)
                    .unwrap_or_default()
                    .chunks(8)
                    .filter(|b| b.len() == 8)
                    .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                    .collect()
            };
            let tape = match &known {
                Some(k) => k.2.clone(),
                None => read_tape(),
            };
            let cand_file = format!("{tmp}/cand");
            let go = |t: &[u64]| {
                let tape_s: Vec<String> = t.iter().map(|x| x.to_string()).collect();
                let _ = std::fs::write(
                    &cand_file,
                    format!("property {}\ncheck {}\ntape {}\n", p.id, ck.name, tape_s.join(" ")),
                );
                run1(&[s("replay"), cand_file.clone()])
            };
            let small = shrink(tape.clone(), 600, 60_000, &mut |t| go(t).0.is_some());
            let (m, err) = go(&small);
            let sample = err.lines().find_map(|l| l.strip_prefix("case: ")).unwrap_or("").to_string();
            let msg = m.unwrap_or(msg);
            let path = write_replay(dir, p.id, ck.name, &small, &sample, &msg);
            println!("failing case of {}: {}", ck.name, clip(&sample, 1000));
            println!("  {msg}");
            println!("VIOLATION property={} replay={}", p.id, path);
            let ev = format!(
                "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}]}},\"wall_s\":{:.2},\"violations\":1,\"assumptions\":[]}}\n",
                esc(p.id), esc(tier), seed, esc(p.level), i + 1, i + 1, esc(p.rule),
                esc(&format!("{}: case {i} killed the process: {msg}", ck.name)),
                t0.elapsed().as_secs_f64()
            );
            let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
            let _ = std::fs::write(format!("{dir}/evidence/{}.json", p.id), ev);
            let _ = std::fs::remove_dir_all(&tmp);
            return 1;
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    harness_error(&format!("the process died ({status}) but no case reproduces it"));
}

/// one case, recording its choices as they are made
pub fn one(p: &Prop, check: &str, seed: u64, i: u64) -> i32 {
    for c in p.checks.iter().filter(|c| c.name == check) {
        let mut src = Src::random(mix(seed, c.name, i));
        if let Ok(f) = std::env::var("VH_TAPE") {
            src.log = std::fs::File::create(f).ok();
        }
        return match run_once(c.f, &mut src) {
            Ok(()) => 0,
            Err(e) => {
                println!("{e}");
                1
            }
        };
    }
    3
}

pub fn run_prop(p: &Prop, tier: &str, seed: u64, dir: &str, only: Option<&str>, scale: f64) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let mut evals = 0;
    let mut nontriv = 0;
    let mut per = String::new();
    let mut samples: Vec<String> = vec![];
    let mut violations = 0;
    let mut excluded: BTreeMap<String, usize> = BTreeMap::new();
    let mut skipped = 0;
    let cap = if thorough { 7200.0 } else { 420.0 };
    for (ci, c) in p.checks.iter().enumerate() {
        if let Some(o) = only {
            if c.name != o {
                continue;
            }
        }
        let n = ((if thorough { c.thorough } else { c.quick }) as f64 * scale).ceil() as usize;
        if n == 0 {
            continue;
        }
        let left = (cap - t0.elapsed().as_secs_f64()).max(5.0);
        let o = run_check(c, ci, seed, n, left);
        evals += o.evaluations;
        nontriv += o.nontrivial.len();
        skipped += o.skipped;
        eprintln!(
            "[{}] {}: {} cases, {} non-trivial, {} skipped, {:.1} s{} {:?}",
            p.id,
            c.name,
            o.evaluations,
            o.nontrivial.len(),
            o.skipped,
            o.wall,
            if o.fail.is_some() { " FAILED" } else { "" },
            o.labels
        );
        for s in &o.samples {
            samples.push(format!("{}: {}", c.name, clip(s, 600)));
        }
        for (k, v) in o.excluded {
            *excluded.entry(k).or_default() += v;
        }
        if !per.is_empty() {
            per.push(',');
        }
        let mut labels = String::new();
        for (k, v) in &o.labels {
            let _ = write!(labels, "{}{}:{}", if labels.is_empty() { "" } else { "," }, esc(k), v);
        }
        let _ = write!(
            per,
            "{{\"check\":{},\"what\":{},\"cases\":{},\"planned\":{},\"nontrivial\":{},\"wall_s\":{:.2},\"classes\":{{{}}}}}",
            esc(c.name),
            esc(c.what),
            o.evaluations,
            n,
            o.nontrivial.len(),
            o.wall,
            labels
        );
        if let Some((i, tape, e)) = o.fail {
            violations += 1;
            eprintln!("[{}] {} case {} failed: {}", p.id, c.name, i, clip(&e, 1500));
            let hang = e.starts_with("HANG");
            if let Ok(f) = std::env::var("VH_SLOTS") {
                // in case a shrinking step kills the process
                let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
                let _ = std::fs::write(f + ".fail", format!("{ci}\n{i}\n{}\n{e}", t.join(" ")));
            }
            let small = shrink(tape.clone(), if hang { 3 } else { 3000 }, 60_000, &mut |t| {
                run_once(c.f, &mut Src::replay(t.to_vec())).is_err()
            });
            let mut s = Src::replay(small.clone());
            let (small, s, msg) = match run_once(c.f, &mut s) {
                Err(m) => (small, s, m),
                Ok(()) => {
                    // timing dependent: keep the original
                    let mut s = Src::replay(tape.clone());
                    let _ = run_once(c.f, &mut s);
                    (tape, s, e)
                }
            };
            let path = write_replay(dir, p.id, c.name, &small, &s.sample.clone().unwrap_or_default(), &msg);
            println!("failing case of {}: {}", c.name, clip(&s.sample.unwrap_or_default(), 1000));
            println!("  {}", clip(&msg, 1500));
            println!("VIOLATION property={} replay={}", p.id, path);
            break;
        }
    }
    let mut known = String::new();
    if only.is_none() {
        for (what, probe) in p.findings {
            take_panic();
            let r = catch_unwind(AssertUnwindSafe(probe));
            let bad = !matches!(r, Ok(Ok(())));
            take_panic();
            if bad {
                println!("KNOWN-FINDING: property={} {}", p.id, what);
            }
            let _ = write!(
                known,
                "{}{{\"finding\":{},\"still_present\":{}}}",
                if known.is_empty() { "" } else { "," },
                esc(what),
                bad
            );
        }
    }
    let ss: Vec<String> = samples.iter().map(|s| esc(s)).collect();
    let ex: Vec<String> = excluded.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let asm: Vec<String> = p.assumptions.iter().map(|s| esc(s)).collect();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"checks\":[{}],\"outside_domain\":{{{}}},\"skipped_for_time\":{},\"known_findings\":[{}]}},\"wall_s\":{:.2},\"violations\":{},\"assumptions\":[{}]}}\n",
        esc(p.id),
        esc(tier),
        seed,
        esc(p.level),
        evals,
        nontriv,
        esc(p.rule),
        ss.join(","),
        per,
        ex.join(","),
        skipped,
        known,
        t0.elapsed().as_secs_f64(),
        violations,
        asm.join(",")
    );
    if only.is_none() {
        let edir = format!("{dir}/evidence");
        let _ = std::fs::create_dir_all(&edir);
        if let Err(e) = std::fs::write(format!("{edir}/{}.json", p.id), ev) {
            harness_error(&format!("evidence: {e}"));
        }
    }
    if violations > 0 {
        1
    } else {
        println!("{}: held on {} cases ({} non-trivial)", p.id, evals, nontriv);
        0
    }
}

pub fn replay(props: &[&Prop], path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => harness_error(&format!("{path}: {e}")),
    };
    let field = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(k).map(|s| s.trim().to_string()))
            .unwrap_or_default()
    };
    let (pid, cname) = (field("property "), field("check "));
    let tape: Vec<u64> = field("tape ").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    for p in props {
        for c in p.checks {
            if p.id == pid && c.name == cname {
                let mut s = Src::replay(tape.clone());
                s.show = true;
                let r = run_once(c.f, &mut s);
                println!("case: {}", s.sample.unwrap_or_default());
                return match r {
                    Ok(()) => {
                        println!("replay passes");
                        0
                    }
                    Err(e) => {
                        eprintln!("failure: {e}");
                        println!("failure: {e}");
                        println!("VIOLATION property={pid} replay={path}");
                        1
                    }
                };
            }
        }
    }
    harness_error("replay file names an unknown check");
}
