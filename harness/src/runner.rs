//! Generated-case runner: 8 forked workers, one forked process per case, shrinking, replay files, evidence.
use crate::interpose as ip;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config as PtConfig, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

/// What one case did.
#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub root: String,
    pub seed: u64,
}
impl Cx {
    pub fn label(&mut self, l: &str) { self.add(l, 1); }
    pub fn add(&mut self, l: &str, n: u64) { if n > 0 { *self.labels.entry(l.to_string()).or_insert(0) += n; } }
    pub fn has(&self, l: &str) -> bool { self.labels.contains_key(l) }
    pub fn get(&self, l: &str) -> u64 { *self.labels.get(l).unwrap_or(&0) }
}

pub trait Prop {
    type Case: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static;
    const ID: &'static str;
    /// When a case counts as non-trivial.
    const RULE: &'static str;
    const NOTE: &'static str = "";
    fn cases(t: Tier) -> u64;
    /// Strategy of case number `i` (so that size classes and modes can be mixed in fixed proportion).
    fn strategy(t: Tier, i: u64) -> BoxedStrategy<Self::Case>;
    fn run(case: &Self::Case, cx: &mut Cx) -> Result<(), String>;
    fn env(_case: &Self::Case) -> Vec<(String, String)> { vec![] }
    /// Real threads: a failing schedule may need several tries to show again.
    const RETRIES: u32 = 1;
    /// A case that takes longer than this much real time (twice) is a server that got stuck.
    const LIMIT_S: u64 = 60;
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Res { verdict: String, msg: String, labels: BTreeMap<String, u64>, nontrivial: bool, ms: u64 }

static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
/// Panics seen in this case so far outside the harness (location, message).
pub fn server_panics() -> Vec<(String, String)> {
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).iter().filter(|p| !harness_loc(&p.0)).cloned().collect()
}
fn harness_loc(l: &str) -> bool { l.starts_with("src/") || l.contains("/harness/src/") }

fn seed_bytes(id: &str, seed: u64, i: u64) -> [u8; 32] {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03);
    for b in id.bytes() { s = s.wrapping_mul(31).wrapping_add(b as u64); }
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) { c.copy_from_slice(&ip::splitmix(&mut s).to_le_bytes()); }
    out
}
fn fnv(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }

fn rm(dir: &str) {
    assert!(dir.contains("/nexo-pbt-"));
    let _ = std::fs::remove_dir_all(dir);
}

/// Run one case in a forked process.
fn fork_case<P: Prop>(case: &P::Case, dir: &str, limit: Duration) -> Res {
    rm(dir);
    std::fs::create_dir_all(dir).expect("scratch");
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
    let t0 = Instant::now();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { libc::close(fds[0]); libc::setpgid(0, 0); }
        if std::env::var("PBT_DEBUG").is_err() {
            unsafe { let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY); libc::dup2(n, 2); libc::close(n); }
        }
        child::<P>(case.clone(), dir.to_string(), fds[1]);
    }
    unsafe { libc::close(fds[1]) };
    let mut buf = Vec::new();
    let mut timed_out = false;
    loop {
        let left = limit.saturating_sub(t0.elapsed());
        if left.is_zero() { timed_out = true; break; }
        let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut pf, 1, left.as_millis().min(1000) as i32) };
        if n < 0 { continue; }
        if n == 0 { continue; }
        let mut b = [0u8; 65536];
        let k = unsafe { libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len()) };
        if k <= 0 { break; }
        buf.extend_from_slice(&b[..k as usize]);
    }
    unsafe { libc::close(fds[0]) };
    if timed_out { unsafe { libc::kill(-pid, libc::SIGKILL); libc::kill(pid, libc::SIGKILL); } }
    let mut st = 0i32;
    unsafe { libc::waitpid(pid, &mut st, 0); libc::kill(-pid, libc::SIGKILL); }
    let ms = t0.elapsed().as_millis() as u64;
    rm(dir);
    let mk = |v: &str, m: String| Res { verdict: v.into(), msg: m, labels: BTreeMap::new(), nontrivial: false, ms };
    if timed_out { return mk("hang", format!("case did not end within {} s", limit.as_secs())); }
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        if s == libc::SIGKILL { return mk("error", "case process was killed".into()); }
        return mk("crash", format!("the server process died with signal {s}"));
    }
    match serde_json::from_slice::<Res>(&buf) {
        Ok(mut r) => { r.ms = ms; r }
        Err(_) => {
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 { return mk("error", "no result from the case".into()); }
            mk("error", format!("case exited with status {st}"))
        }
    }
}

fn child<P: Prop>(case: P::Case, dir: String, out: i32) -> ! {
    std::env::set_current_dir(&dir).ok();
    for (k, v) in P::env(&case) { std::env::set_var(k, v); }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if std::env::var("PBT_DEBUG").is_ok() { eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture()); }
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push((loc, msg));
    }));
    let js = serde_json::to_vec(&case).unwrap();
    let seed = fnv(&js) | 1;
    ip::seed_process(seed);
    let h = std::thread::Builder::new().name("case".into()).stack_size(2 << 20).spawn(move || {
        ip::seed_thread(seed);
        let mut cx = Cx { root: dir.clone(), seed, ..Default::default() };
        ip::fs_start(&dir);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| P::run(&case, &mut cx)));
        (r, cx)
    }).unwrap();
    let (r, cx) = h.join().expect("case thread");
    let panics = PANICS.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let (verdict, msg) = match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(m)) => ("violation", m),
        Err(_) => {
            let (l, m) = panics.last().cloned().unwrap_or_default();
            if harness_loc(&l) { ("error", format!("harness panic at {l}: {m}")) } else { ("violation", format!("panic in the server at {l}: {m}")) }
        }
    };
    let (verdict, msg) = match panics.iter().find(|p| harness_loc(&p.0)) {
        Some((l, m)) if verdict != "error" => ("error", format!("harness panic at {l}: {m}")),
        _ => (verdict, msg),
    };
    let mut msg = msg;
    if verdict == "violation" { if let Some((l, m)) = panics.last() { msg = format!("{msg} [server panic at {l}: {}]", m.chars().take(200).collect::<String>()); } }
    let res = Res { verdict: verdict.into(), msg, labels: cx.labels, nontrivial: cx.nontrivial, ms: 0 };
    let b = serde_json::to_vec(&res).unwrap();
    ip::fs_stop();
    let mut f = unsafe { std::fs::File::from_raw_fd(out) };
    let _ = f.write_all(&b);
    drop(f);
    unsafe { libc::_exit(0) }
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    evaluations: u64,
    nontrivial: u64,
    distinct: Vec<u64>,
    labels: BTreeMap<String, u64>,
    label_cases: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    violation: Option<(serde_json::Value, String)>,
    known: Vec<String>,
    error: Option<String>,
    max_ms: u64,
    shrink_evals: u64,
    stopped: bool,
}

fn corpus_files(id: &str) -> Vec<String> {
    let d = format!("{}/corpus/{}", verif(), id);
    let mut v: Vec<String> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path().to_string_lossy().into_owned()).filter(|p| p.ends_with(".json")).collect()).unwrap_or_default();
    v.sort();
    v
}
pub fn verif() -> String { std::env::var("PBT_VERIF").unwrap_or_else(|_| "/verif".into()) }

fn known_findings(id: &str) -> Vec<String> {
    std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix("open: property=").and_then(|l| l.strip_prefix(id)).map(|l| l.trim().to_string())).collect()
}

fn tree_of<P: Prop>(tier: Tier, seed: u64, i: u64) -> Box<dyn ValueTree<Value = P::Case>> {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(P::ID, seed, i));
    let mut runner = TestRunner::new_with_rng(PtConfig { failure_persistence: None, ..PtConfig::default() }, rng);
    P::strategy(tier, i).new_tree(&mut runner).expect("generate")
}
/// Print case number `i` (in replay-file form).
pub fn show<P: Prop>(tier: Tier, seed: u64, i: u64) -> i32 {
    println!("{}", serde_json::json!({"property": P::ID, "message": "generated", "case": tree_of::<P>(tier, seed, i).current()}));
    0
}

const SHRINK_EVALS: u64 = 3000;

fn worker<P: Prop>(w: u64, nw: u64, seed: u64, tier: Tier, dir: &str, stop: *mut u8, total: u64, deadline: Instant) -> WorkerOut {
    let mut o = WorkerOut::default();
    let mut seen = HashSet::new();
    let known = known_findings(P::ID);
    let limit = Duration::from_secs(P::LIMIT_S);
    let shrink_s = if tier == Tier::Quick { 90 } else { 300 };
    let corpus = corpus_files(P::ID);
    let nc = corpus.len() as u64;
    for i in (w..nc + total).step_by(nw as usize) {
        if unsafe { std::ptr::read_volatile(stop) } != 0 { o.stopped = true; break; }
        if Instant::now() > deadline { o.stopped = true; break; }
        let mut tree = None;
        let case: P::Case = if i < nc {
            let txt = std::fs::read_to_string(&corpus[i as usize]).expect("corpus");
            let v: serde_json::Value = serde_json::from_str(&txt).expect("corpus json");
            serde_json::from_value(v["case"].clone()).unwrap_or_else(|e| panic!("corpus {}: {e}", corpus[i as usize]))
        } else {
            let t = tree_of::<P>(tier, seed, i - nc);
            let c = t.current();
            tree = Some(t);
            c
        };
        let js = serde_json::to_value(&case).unwrap();
        let mut r = fork_case::<P>(&case, dir, limit);
        if r.verdict == "error" || r.verdict == "hang" { r = fork_case::<P>(&case, dir, limit); }
        o.evaluations += 1;
        o.max_ms = o.max_ms.max(r.ms);
        for (k, v) in &r.labels { *o.labels.entry(k.clone()).or_insert(0) += v; *o.label_cases.entry(k.clone()).or_insert(0) += 1; }
        if r.nontrivial {
            o.nontrivial += 1;
            seen.insert(fnv(js.to_string().as_bytes()));
            if o.samples.len() < 1 { let mut t = js.to_string(); if t.len() > 1500 { t = t.chars().take(1500).collect::<String>() + "..."; } o.samples.push(serde_json::json!({"case": t, "labels": r.labels})); }
        }
        match r.verdict.as_str() {
            "ok" => {}
            "violation" | "crash" | "hang" => {
                if r.verdict == "hang" { r.msg = format!("the server got stuck: {}", r.msg); }
                if r.verdict == "crash" {
                    let r2 = fork_case::<P>(&case, dir, limit);
                    if r2.verdict != "crash" && r2.verdict != "violation" && r2.verdict != "hang" { o.error = Some(format!("case process died once, not again: {} / {}", r.msg, r2.msg)); break; }
                }
                if let Some(k) = known.iter().find(|k| r.msg.contains(k.split(" -- ").next().unwrap())) { o.known.push(k.clone()); continue; }
                unsafe { std::ptr::write_volatile(stop, 1) };
                let (mut best, mut msg) = (js, r.msg);
                let t0 = Instant::now();
                if let Some(t) = tree.as_mut() {
                    // standard simplify / complicate loop over the generator's own value tree
                    let mut go = t.simplify();
                    while go && o.shrink_evals < SHRINK_EVALS && t0.elapsed().as_secs() < shrink_s {
                        let c = t.current();
                        let mut failed = None;
                        for _ in 0..P::RETRIES {
                            o.shrink_evals += 1;
                            let r = fork_case::<P>(&c, dir, Duration::from_secs(P::LIMIT_S / 4));
                            if r.verdict == "violation" || r.verdict == "crash" || r.verdict == "hang" { failed = Some(r.msg); break; }
                        }
                        go = match failed {
                            Some(m) => { best = serde_json::to_value(&c).unwrap(); msg = m; t.simplify() }
                            None => t.complicate(),
                        };
                    }
                }
                o.violation = Some((best, msg));
                break;
            }
            _ => { o.error = Some(format!("{}: {}", r.verdict, r.msg)); let _ = std::fs::write(format!("{dir}.err.json"), js.to_string()); unsafe { std::ptr::write_volatile(stop, 1) }; break; }
        }
    }
    o.distinct = seen.into_iter().collect();
    o
}

fn drop_root(scratch: &str) {
    unsafe {
        if libc::getuid() == 0 {
            let _ = scratch;
            libc::setgroups(0, std::ptr::null());
            if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 { eprintln!("note: cannot change user; only the path guard contains the server"); }
        }
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let nf = libc::rlimit { rlim_cur: 4096, rlim_max: 4096 };
        libc::setrlimit(libc::RLIMIT_NOFILE, &nf);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}
fn chown(p: &str) {
    let c = std::ffi::CString::new(p).unwrap();
    unsafe { if libc::getuid() == 0 { libc::chown(c.as_ptr(), 65534, 65534); } }
}
fn scratch() -> String {
    let base = if std::fs::metadata("/dev/shm").is_ok() { "/dev/shm" } else { "/tmp" };
    format!("{}/nexo-pbt-{}", base, std::process::id())
}
fn clear_env() {
    let keys: Vec<String> = std::env::vars().map(|v| v.0).collect();
    for k in keys {
        if ["QUEUE_", "STREAM_", "PUBSUB_", "STORE_", "SERVER_", "NEXO_", "MAX_PAYLOAD", "CHANNEL_"].iter().any(|p| k.starts_with(p)) { std::env::remove_var(k); }
    }
}

pub fn check<P: Prop>(tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    clear_env();
    ip::seed_thread(0x5eed);
    let sc = scratch();
    rm(&sc);
    std::fs::create_dir_all(&sc).expect("scratch");
    let nw: u64 = std::env::var("PBT_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let total = std::env::var("PBT_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| P::cases(tier));
    let deadline = t0 + Duration::from_secs(if tier == Tier::Quick { 540 } else { 3 * 3600 });
    let stop = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u8 };
    let mut pids = Vec::new();
    for w in 0..nw {
        let dir = format!("{sc}/w{w}");
        std::fs::create_dir_all(&dir).unwrap();
        chown(&dir);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            drop_root(&sc);
            let d = dir.clone();
            let out = std::panic::catch_unwind(|| worker::<P>(w, nw, seed, tier, &format!("{d}/c"), stop, total, deadline));
            let out = out.unwrap_or_else(|_| WorkerOut { error: Some("harness panic in a worker".into()), ..Default::default() });
            std::fs::write(format!("{dir}/out.json"), serde_json::to_vec(&out).unwrap()).unwrap();
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in &pids { let mut st = 0; unsafe { libc::waitpid(*p, &mut st, 0) }; }
    let mut all = WorkerOut::default();
    let mut distinct = HashSet::new();
    for w in 0..nw {
        let dir = format!("{sc}/w{w}");
        let Some(o) = std::fs::read(format!("{dir}/out.json")).ok().and_then(|b| serde_json::from_slice::<WorkerOut>(&b).ok()) else {
            all.error.get_or_insert("a worker gave no result".into()); continue;
        };
        if let Ok(e) = std::fs::read_to_string(format!("{dir}/c.err.json")) {
            let _ = std::fs::create_dir_all(format!("{}/replays", verif()));
            let v: serde_json::Value = serde_json::from_str(&e).unwrap_or_default();
            let _ = std::fs::write(format!("{}/replays/{}-error.json", verif(), P::ID), serde_json::json!({"property": P::ID, "case": v}).to_string());
        }
        all.evaluations += o.evaluations; all.nontrivial += o.nontrivial; all.shrink_evals += o.shrink_evals;
        for d in o.distinct { distinct.insert(d); }
        for (k, v) in o.labels { *all.labels.entry(k).or_insert(0) += v; }
        for (k, v) in o.label_cases { *all.label_cases.entry(k).or_insert(0) += v; }
        if all.samples.len() < 5 { all.samples.extend(o.samples); }
        if all.violation.is_none() { all.violation = o.violation; }
        if all.error.is_none() { all.error = o.error; }
        for k in o.known { if !all.known.contains(&k) { all.known.push(k); } }
        all.max_ms = all.max_ms.max(o.max_ms);
        all.stopped |= o.stopped;
    }
    rm(&sc);
    let wall = t0.elapsed().as_secs_f64();
    let mut dist = serde_json::Map::new();
    for (k, v) in &all.labels { dist.insert(k.clone(), serde_json::json!({"cases": all.label_cases[k], "total": v})); }
    let ev = serde_json::json!({
        "property": P::ID, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": all.evaluations, "distinct_nontrivial": distinct.len(), "rule": P::RULE, "samples": all.samples,
            "distribution": dist, "nontrivial": all.nontrivial, "planned": total, "corpus_cases": corpus_files(P::ID).len(), "slowest_case_ms": all.max_ms,
            "shrink_evaluations": all.shrink_evals, "cut_short": all.stopped, "note": P::NOTE,
        },
        "wall_s": wall,
    });
    std::fs::create_dir_all(format!("{}/evidence", verif())).ok();
    std::fs::write(format!("{}/evidence/{}.json", verif(), P::ID), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s, slowest case {} ms", P::ID, all.evaluations, distinct.len(), wall, all.max_ms);
    if std::env::var("PBT_STATS").is_ok() { for (k, v) in &all.labels { println!("   {:<40} cases {:>6} total {:>8}", k, all.label_cases[k], v); } }
    for k in &all.known { println!("KNOWN-FINDING: property={} {}", P::ID, k); }
    if let Some((case, msg)) = all.violation {
        std::fs::create_dir_all(format!("{}/replays", verif())).ok();
        let txt = serde_json::to_string_pretty(&serde_json::json!({"property": P::ID, "message": msg, "case": case})).unwrap();
        let path = format!("{}/replays/{}-{:016x}.json", verif(), P::ID, fnv(case.to_string().as_bytes()));
        std::fs::write(&path, txt).expect("replay file");
        println!("{msg}");
        println!("VIOLATION property={} replay={}", P::ID, path);
        return 1;
    }
    if let Some(e) = all.error { println!("ERROR {}: {}", P::ID, e); return 3; }
    0
}

pub fn replay<P: Prop>(v: &serde_json::Value) -> i32 {
    clear_env();
    ip::seed_thread(0x5eed);
    let case: P::Case = serde_json::from_value(v["case"].clone()).expect("case");
    let sc = scratch();
    rm(&sc);
    std::fs::create_dir_all(&sc).unwrap();
    chown(&sc);
    let n: u32 = std::env::var("PBT_TRIES").ok().and_then(|s| s.parse().ok()).unwrap_or(P::RETRIES);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        drop_root(&sc);
        for _ in 0..n {
            let r = fork_case::<P>(&case, &format!("{sc}/c"), Duration::from_secs(300));
            println!("{}: {} ({} ms) {}", P::ID, r.verdict, r.ms, r.msg);
            if std::env::var("PBT_STATS").is_ok() { println!("{:?}", r.labels); }
            std::io::stdout().flush().ok();
            if r.verdict != "ok" { unsafe { libc::_exit(if r.verdict == "violation" || r.verdict == "crash" || r.verdict == "hang" { 1 } else { 3 }) }; }
        }
        unsafe { libc::_exit(0) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    rm(&sc);
    if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 3 }
}

pub fn read_to_value(p: &str) -> serde_json::Value {
    let mut s = String::new();
    std::fs::File::open(p).expect("replay file").read_to_string(&mut s).unwrap();
    serde_json::from_str(&s).expect("json")
}
pub fn bx<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> { s.boxed() }
