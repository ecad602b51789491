//! Supervisor and workers. The supervisor starts worker processes (the
//! interposed state is per process), hands out case numbers through shared
//! memory, watches for crashes and hangs, confirms them by running the case
//! again alone, and writes the evidence file.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::ctx::{Ctx, Prop, Tier, Violation};

const SLOTS: usize = 64;
/// cpu seconds one case may use between two heartbeats before it counts as endless
const CPU_LIMIT: f64 = 60.0;
/// seconds without any cpu use before a case counts as deadlocked
const IDLE_LIMIT: u64 = 30;

struct Shared(*mut AtomicU64);
impl Shared {
    fn open(p: &Path) -> Shared {
        let f = fs::OpenOptions::new().read(true).write(true).create(true).open(p).expect("shared file");
        f.set_len(4096).unwrap();
        use std::os::fd::AsRawFd;
        let m = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(m != libc::MAP_FAILED);
        Shared(m as *mut AtomicU64)
    }
    fn at(&self, i: usize) -> &AtomicU64 { assert!(i < 512); unsafe { &*self.0.add(i) } }
    fn next(&self) -> &AtomicU64 { self.at(0) }
    fn stop(&self) -> &AtomicU64 { self.at(1) }
    /// case number + 1 of the worker, 0 when idle
    fn cur(&self, w: usize) -> &AtomicU64 { self.at(8 + w) }
    fn beat(&self, w: usize) -> &AtomicU64 { self.at(8 + SLOTS + w) }
}

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn set_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _by = crate::shim::Bypass::new();
        let s = format!("{}", info);
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("PANIC {}\n{}", s, std::backtrace::Backtrace::force_capture());
        }
        if let Ok(mut g) = LAST_PANIC.lock() { *g = s; }
    }));
}

fn limits() {
    unsafe {
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut r);
        r.rlim_cur = r.rlim_max.min(65536);
        libc::setrlimit(libc::RLIMIT_NOFILE, &r);
        let a = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &a);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::umask(0o022);
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VH_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn scratch_base() -> PathBuf {
    if let Some(p) = std::env::var_os("VH_SCRATCH") { return PathBuf::from(p); }
    for p in ["/dev/shm", "/tmp"] {
        let t = Path::new(p).join(format!("vh.probe.{}", std::process::id()));
        if fs::create_dir(&t).is_ok() {
            let _ = fs::remove_dir(&t);
            return PathBuf::from(p);
        }
    }
    PathBuf::from("/tmp")
}

fn load_known(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let p = verif_dir().join("known_findings.txt");
    for l in fs::read_to_string(&p).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            let mut it = rest.splitn(3, ' ');
            let pr = it.next().unwrap_or("");
            let id = it.next().unwrap_or("").strip_prefix("id=").unwrap_or("").to_string();
            if pr == prop && !id.is_empty() { m.insert(id, it.next().unwrap_or("").to_string()); }
        }
    }
    m
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}
fn env_tier() -> Tier {
    if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick }
}

fn find(id: &str) -> &'static Prop {
    crate::props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) })
}

pub fn main(args: &[String]) -> i32 {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.get(0) {
        Some(&"run") => run(find(a[1])),
        Some(&"worker") => worker(find(a[1]), a[2].parse().unwrap(), Path::new(a[3]), None),
        Some(&"case") => worker(find(a[1]), 0, Path::new(a[3]), Some(a[2].parse().unwrap())),
        Some(&"replay") => replay(find(a[1]), a[2].parse().unwrap()),
        Some(&"list") => { for p in crate::props::ALL { println!("{}", p.id); } 0 }
        Some(&"stress") => crate::props::stress(&a[1..]),
        _ => { eprintln!("usage: vh run|replay|list ..."); 2 }
    }
}

/// Run one case with panics caught
fn run_case(p: &Prop, cx: &mut Ctx, idx: u64) -> Option<Violation> {
    cx.start(idx);
    LAST_PANIC.lock().unwrap().clear();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(cx)));
    let v = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(_) => {
            let m = LAST_PANIC.lock().unwrap().clone();
            if !m.contains("VH-LOGICAL") && (m.contains("harness:") || m.contains("harness/src") || m.contains(": src/") || m.contains("at src/")) {
                // a mistake of the harness, never a verdict
                eprintln!("harness error in case {}: {}", idx, m);
                cx.notes.push(format!("harness error in case {}: {}", idx, m));
                cx.count("harness_errors", 1);
                None
            } else {
                Some(Violation { msg: format!("panic: {}", m), detail: String::new() })
            }
        }
    };
    crate::shim::wait_threads();
    cx.clean();
    v
}

fn worker(p: &'static Prop, w: usize, dir: &Path, single: Option<u64>) -> i32 {
    set_hook();
    limits();
    let sh = Shared::open(&dir.join("shared"));
    let scratch = dir.join(format!("w{}.{}", w, std::process::id()));
    fs::create_dir(&scratch).expect("scratch");
    let mut cx = Ctx::new(p.id, env_seed(), env_tier(), &scratch);
    cx.known = load_known(p.id).keys().cloned().collect();
    cx.beat = sh.beat(w) as *const AtomicU64;
    let (n, secs) = match cx.tier { Tier::Quick => (p.quick, p.quick_s), Tier::Thorough => (p.thorough, p.thorough_s) };
    let start_at: f64 = std::env::var("VH_ELAPSED").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);
    let start = Instant::now();
    let mut vs: Vec<(u64, Violation)> = Vec::new();
    loop {
        if single.is_none() && (sh.stop().load(SeqCst) != 0 || start.elapsed().as_secs_f64() + start_at > secs as f64) { break; }
        let idx = match single { Some(i) => i, None => sh.next().fetch_add(1, SeqCst) };
        if single.is_none() && idx >= n { break; }
        sh.cur(w).store(idx + 1, SeqCst);
        sh.beat(w).fetch_add(1, SeqCst);
        if let Some(v) = run_case(p, &mut cx, idx) {
            vs.push((idx, v));
            // what is slow to fail fails once
            if vs.len() >= 3 || start.elapsed().as_secs() > 20 { sh.stop().store(1, SeqCst); }
        }
        cx.count("cases", 1);
        sh.cur(w).store(0, SeqCst);
        if single.is_some() { break; }
    }
    // results: a line format the supervisor reads back
    let mut out = String::new();
    let esc = |s: &str| s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t");
    out.push_str(&format!("E\t{}\n", cx.evals));
    for (k, v) in &cx.counts { out.push_str(&format!("C\t{}\t{}\n", k, v)); }
    for (k, v) in &cx.maxes { out.push_str(&format!("M\t{}\t{}\n", k, v)); }
    for (k, v) in &cx.sets { for x in v { out.push_str(&format!("S\t{}\t{}\n", k, esc(x))); } }
    for s in &cx.samples { out.push_str(&format!("X\t{}\n", esc(s))); }
    for s in &cx.notes { out.push_str(&format!("N\t{}\n", esc(s))); }
    for (k, (n, s)) in &cx.found { out.push_str(&format!("K\t{}\t{}\t{}\n", k, n, esc(s))); }
    for (i, v) in &vs { out.push_str(&format!("V\t{}\t{}\t{}\n", i, esc(&v.msg), esc(&v.detail))); }
    let mut f = fs::File::create(dir.join(format!("res.{}.{}", w, std::process::id()))).expect("res");
    f.write_all(out.as_bytes()).unwrap();
    f.write_all(b"F\n").unwrap();
    for x in &cx.fps { f.write_all(&x.to_le_bytes()).unwrap(); }
    drop(f);
    crate::gen::remove_tree(&scratch);
    if single.is_some() { for (_, v) in &vs { eprintln!("VIOLATION {}\n{}", v.msg, v.detail); } }
    if vs.is_empty() { 0 } else { 3 }
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some(x) => o.push(x), None => {} }
        } else { o.push(c); }
    }
    o
}

#[derive(Default)]
struct Total {
    evals: u64,
    counts: BTreeMap<String, u64>,
    maxes: BTreeMap<String, u64>,
    sets: BTreeMap<String, BTreeSet<String>>,
    samples: Vec<String>,
    notes: Vec<String>,
    found: BTreeMap<String, (u64, String)>,
    vs: Vec<(u64, String, String)>,
    fps: HashSet<u64>,
}

impl Total {
    fn load(&mut self, f: &Path) -> bool {
        let data = match fs::read(f) { Ok(d) => d, Err(_) => return false };
        let mut pos = 0;
        while pos < data.len() {
            let end = match data[pos..].iter().position(|&c| c == b'\n') { Some(e) => pos + e, None => return false };
            let l = String::from_utf8_lossy(&data[pos..end]).into_owned();
            pos = end + 1;
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "E" => self.evals += f[1].parse::<u64>().unwrap(),
                "C" => *self.counts.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "M" => { let e = self.maxes.entry(f[1].into()).or_insert(0); *e = (*e).max(f[2].parse().unwrap()); }
                "S" => { self.sets.entry(f[1].into()).or_default().insert(unesc(f[2])); }
                "X" => self.samples.push(unesc(f[1])),
                "N" => self.notes.push(unesc(f[1])),
                "K" => { let e = self.found.entry(f[1].into()).or_insert((0, unesc(f[3]))); e.0 += f[2].parse::<u64>().unwrap(); }
                "V" => self.vs.push((f[1].parse().unwrap(), unesc(f[2]), unesc(f[3]))),
                "F" => {
                    for c in data[pos..].chunks_exact(8) {
                        let mut a = [0u8; 8];
                        a.copy_from_slice(c);
                        self.fps.insert(u64::from_le_bytes(a));
                    }
                    return true;
                }
                _ => {}
            }
        }
        false
    }
}

fn cpu_of(pid: u32) -> Option<(f64, bool)> {
    // utime+stime of the process, and whether any thread is running
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    let mut running = false;
    if let Ok(d) = fs::read_dir(format!("/proc/{}/task", pid)) {
        for e in d.flatten() {
            if let Ok(s) = fs::read_to_string(e.path().join("stat")) {
                let st = s.rsplit(')').next().and_then(|r| r.split_whitespace().next().map(|x| x.to_string())).unwrap_or_default();
                if st == "R" || st == "D" { running = true; }
            }
        }
    }
    Some((t / 100.0, running))
}

struct Live {
    child: Child,
    w: usize,
    beat: u64,
    cpu0: f64,
    cpu_last: f64,
    idle_since: Instant,
}

enum End { Ok, Crash(String), Hang(String), Failed(String) }

fn spawn(p: &Prop, dir: &Path, w: usize, single: Option<u64>, elapsed: f64) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    match single {
        Some(i) => c.args(["case", p.id, &i.to_string(), dir.to_str().unwrap()]),
        None => c.args(["worker", p.id, &w.to_string(), dir.to_str().unwrap()]),
    };
    c.env("VH_ELAPSED", format!("{}", elapsed));
    c.stdin(Stdio::null());
    c.stdout(Stdio::null());
    let err = fs::OpenOptions::new().create(true).append(true).open(dir.join(format!("err.{}", w))).unwrap();
    c.stderr(err);
    unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
    c.spawn().expect("spawn")
}

/// Poll one worker; None while it runs well
fn poll(l: &mut Live, sh: &Shared) -> Option<End> {
    if let Some(st) = l.child.try_wait().unwrap() {
        if let Some(sig) = st.signal() {
            return Some(if sig == libc::SIGKILL { End::Failed("killed (out of memory?)".into()) }
                        else { End::Crash(format!("signal {}", sig)) });
        }
        return Some(match st.code() { Some(0) | Some(3) => End::Ok, c => End::Failed(format!("exit status {:?}", c)) });
    }
    let b = sh.beat(l.w).load(SeqCst);
    let (cpu, running) = cpu_of(l.child.id()).unwrap_or((l.cpu_last, true));
    if b != l.beat || sh.cur(l.w).load(SeqCst) == 0 {
        l.beat = b;
        l.cpu0 = cpu;
        l.cpu_last = cpu;
        l.idle_since = Instant::now();
        return None;
    }
    if cpu - l.cpu0 > CPU_LIMIT {
        return Some(End::Hang(format!("used {:.0} s of cpu time without an end", cpu - l.cpu0)));
    }
    if cpu > l.cpu_last || running {
        l.cpu_last = cpu;
        l.idle_since = Instant::now();
    } else if l.idle_since.elapsed().as_secs() >= IDLE_LIMIT {
        return Some(End::Hang(format!("all threads blocked for {} s", IDLE_LIMIT)));
    }
    None
}

fn live(child: Child, w: usize, sh: &Shared) -> Live {
    Live { child, w, beat: sh.beat(w).load(SeqCst), cpu0: 0.0, cpu_last: 0.0, idle_since: Instant::now() }
}

/// Run one case alone; what happened
fn confirm(p: &Prop, dir: &Path, idx: u64, sh: &Shared) -> End {
    let w = SLOTS - 1;
    sh.cur(w).store(idx + 1, SeqCst);
    let mut l = live(spawn(p, dir, w, Some(idx), 0.0), w, sh);
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if let Some(e) = poll(&mut l, sh) {
            let _ = l.child.kill();
            let _ = l.child.wait();
            return e;
        }
    }
}

fn tail(f: &Path) -> String {
    let d = fs::read(f).unwrap_or_default();
    let n = d.len().saturating_sub(1500);
    String::from_utf8_lossy(&d[n..]).into_owned()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let (seed, tier) = (env_seed(), env_tier());
    let dir = scratch_base().join(format!("vh.{}.{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).expect("scratch");
    use std::os::unix::fs::PermissionsExt;
    fs::set_permissions(&dir, fs::Permissions::from_mode(0o755)).unwrap();
    let code = supervise(p, seed, tier, &dir, t0);
    crate::gen::remove_tree(&dir);
    code
}

fn supervise(p: &'static Prop, seed: u64, tier: Tier, dir: &Path, t0: Instant) -> i32 {
    let sh = Shared::open(&dir.join("shared"));
    let nw = std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    let mut lives: Vec<Live> = (0..nw).map(|w| live(spawn(p, dir, w, None, 0.0), w, &sh)).collect();
    let mut vs: Vec<(u64, String, String)> = Vec::new();
    let mut inconclusive: Vec<String> = Vec::new();
    let mut confirmed = 0;
    while !lives.is_empty() {
        std::thread::sleep(Duration::from_millis(10));
        let mut i = 0;
        while i < lives.len() {
            match poll(&mut lives[i], &sh) {
                None => { i += 1; }
                Some(End::Ok) => { lives.remove(i); }
                Some(end) => {
                    let mut l = lives.remove(i);
                    let _ = l.child.kill();
                    let _ = l.child.wait();
                    let cur = sh.cur(l.w).load(SeqCst);
                    let err = tail(&dir.join(format!("err.{}", l.w)));
                    sh.cur(l.w).store(0, SeqCst);
                    if cur == 0 {
                        inconclusive.push(format!("a worker ended between cases: {}", err));
                        continue;
                    }
                    let idx = cur - 1;
                    let first = match end { End::Crash(ref m) | End::Hang(ref m) | End::Failed(ref m) => m.clone(), End::Ok => String::new() };
                    confirmed += 1;
                    if confirmed > 6 {
                        sh.stop().store(1, SeqCst);
                    } else {
                        let mut again = confirm(p, dir, idx, &sh);
                        if let End::Ok = again { if let End::Crash(_) = end { again = confirm(p, dir, idx, &sh); } }
                        let detail = format!("first run: {}\n{}\nsecond run: {}", first, err,
                            tail(&dir.join(format!("err.{}", SLOTS - 1))));
                        match (end, again) {
                            (End::Crash(m), End::Crash(_)) => vs.push((idx, format!("the process dies: {}", m), detail)),
                            (End::Hang(m), End::Hang(_)) => vs.push((idx, format!("does not terminate: {}", m), detail)),
                            // a crash by a signal is a fact even if the schedule does not come back
                            (End::Crash(m), _) => vs.push((idx, format!("the process dies (once): {}", m), detail)),
                            (e, _) => {
                                let k = match e { End::Hang(_) => "no progress", _ => "worker ended" };
                                inconclusive.push(format!("case {}: {} ({}), not confirmed; {}", idx, k, first, err));
                            }
                        }
                        if !vs.is_empty() { sh.stop().store(1, SeqCst); }
                    }
                    if sh.stop().load(SeqCst) == 0 {
                        let w = l.w;
                        lives.push(live(spawn(p, dir, w, None, t0.elapsed().as_secs_f64()), w, &sh));
                    }
                }
            }
        }
    }
    let mut tot = Total::default();
    let mut files: Vec<PathBuf> = fs::read_dir(dir).unwrap().flatten().map(|e| e.path())
        .filter(|p| p.file_name().unwrap().to_str().unwrap().starts_with("res.")).collect();
    files.sort();
    for f in files { if !tot.load(&f) { inconclusive.push(format!("bad result file {:?}", f)); } }
    tot.vs.extend(vs);
    tot.vs.sort();
    report(p, seed, tier, tot, inconclusive, t0)
}

fn report(p: &'static Prop, seed: u64, tier: Tier, mut tot: Total, inconclusive: Vec<String>, t0: Instant) -> i32 {
    let ev = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&ev);
    let planned = if tier == Tier::Quick { p.quick } else { p.thorough };
    let done = tot.counts.get("cases").cloned().unwrap_or(0);
    let known = load_known(p.id);
    // evidence
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n",
        json_str(p.id), json_str(if tier == Tier::Quick { "quick" } else { "thorough" }), seed, json_str(p.level)));
    o.push_str(" \"coverage\": {\n");
    o.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        tot.evals, tot.fps.len(), json_str(p.rule)));
    o.push_str(&format!("  \"cases_planned\": {},\n", planned));
    o.push_str("  \"observed\": {");
    o.push_str(&tot.counts.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n  \"maxima\": {");
    o.push_str(&tot.maxes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n  \"distinct_values\": {");
    o.push_str(&tot.sets.iter().map(|(k, v)| format!("{}: [{}]", json_str(k),
        v.iter().take(60).map(|x| json_str(x)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "));
    o.push_str("},\n  \"known_findings_seen\": {");
    o.push_str(&tot.found.iter().map(|(k, v)| format!("{}: {}", json_str(k), v.0)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n  \"inconclusive\": [");
    o.push_str(&inconclusive.iter().take(10).map(|x| json_str(&x[..x.len().min(400)])).collect::<Vec<_>>().join(", "));
    o.push_str("],\n  \"samples\": [");
    tot.samples.sort();
    tot.samples.truncate(8);
    o.push_str(&tot.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",\n   "));
    o.push_str("]\n },\n \"assumptions\": [");
    o.push_str(&p.assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "));
    o.push_str(&format!("],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), tot.vs.len()));
    if let Err(e) = fs::write(ev.join(format!("{}.json", p.id)), o) { eprintln!("cannot write evidence: {}", e); return 2; }

    println!("{}: {} evaluations, {} distinct non-trivial, {}/{} cases, {:.1} s", p.id, tot.evals, tot.fps.len(), done, planned, t0.elapsed().as_secs_f64());
    for n in inconclusive.iter().take(5) { println!("inconclusive: {}", n.replace('\n', " ")); }
    for n in tot.notes.iter().take(5) { println!("note: {}", n.replace('\n', " ")); }
    if !tot.vs.is_empty() {
        for (k, (idx, msg, detail)) in tot.vs.iter().enumerate().take(5) {
            let path = ev.join(format!("replay-{}-{}.txt", p.id, k));
            let text = format!("property: {}\ncase: {}\nseed: {}\ntier: {}\nreplay: VERIF_SEED={} VERIF_TIER={} {}/check.sh replay {} {}\n\n{}\n\n{}\n",
                p.id, idx, seed, if tier == Tier::Quick { "quick" } else { "thorough" },
                seed, if tier == Tier::Quick { "quick" } else { "thorough" }, verif_dir().display(), p.id, idx, msg, detail);
            let _ = fs::write(&path, text);
            println!("  case {}: {}", idx, msg.chars().take(600).collect::<String>().replace('\n', " "));
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
        return 1;
    }
    for (id, what) in &known {
        println!("KNOWN-FINDING: property={} {} {} (seen {} times in this run)", p.id, id, what, tot.found.get(id).map(|x| x.0).unwrap_or(0));
    }
    if tot.counts.get("harness_errors").cloned().unwrap_or(0) > 0 {
        println!("harness errors, no verdict");
        return 2;
    }
    if tot.evals == 0 || tot.fps.len() < 2 {
        println!("observed nothing, no verdict");
        return 2;
    }
    for n in p.need {
        if tot.counts.get(*n).cloned().unwrap_or(0) == 0 {
            println!("never observed {:?}, no verdict", n);
            return 2;
        }
    }
    if inconclusive.len() > 3 {
        println!("too many inconclusive cases, no verdict");
        return 2;
    }
    0
}

fn replay(p: &'static Prop, idx: u64) -> i32 {
    let dir = scratch_base().join(format!("vh.{}.{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let c = worker(p, 0, &dir, Some(idx));
    crate::gen::remove_tree(&dir);
    if c == 0 { println!("case {} of {} passes", idx, p.id); 0 } else { 1 }
}
