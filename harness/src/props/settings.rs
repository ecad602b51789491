//! C30: settings mean what they say, in whatever way they were made.
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use dir_signature::v1::{self, Error, Parser};
use dir_signature::{HashType, ScannerConfig};

use crate::ctx::{Ctx, Prop, R};
use crate::gen::{self, describe};
use crate::io::Sink;
use crate::model::*;
use crate::props::progress::{with_stderr, Err2};
use crate::props::util::*;
use crate::rng::{hash_bytes, Rng};
use crate::shim::{self, Act, Sess, K};
use crate::{ensure, fail};

pub static C30: Prop = Prop {
    id: "C30", level: "exploration",
    rule: "each case makes calls of the setters of one ScannerConfig in random order, repeated and with scans in between, and compares every scan with what the last call of each setter (or the default) says: hash type in header and digests, sources and their order, report on standard error or none, number of threads seen while it runs; in scans of wide trees workers are held at their first read until as many are there as were set (or five seconds have passed); names of hash types are read, printed and mutated; non-trivial with a scan after two or more calls, distinct by calls",
    quick: 15000, thorough: 300000, quick_s: 40, thorough_s: 600, run: c30,
    assumptions: &["blake3 indexes may carry digests that go on from earlier blocks (K1)", "the threads of a scan are those of the process above the number before it"],
    need: &["scans compared", "scans by a config used before", "setters called again", "workers at once", "names of hash types read", "names refused", "scans without worker threads", "reports asked for", "source lists of several"],
};

#[derive(Clone, Debug)]
struct Set { h: H, threads: usize, auto: bool, queue: Option<usize>, dirs: Vec<usize>, progress: bool }

fn c30(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    names(cx, &mut rng)?;
    if cx.idx % 16 == 7 { return at_once(cx, &mut rng); }
    calls(cx, &mut rng)
}

// ---- names of hash types

const NAMES: [(&str, H); 3] = [("sha512/256", H::Sha), ("blake2b/256", H::B2), ("blake3/256", H::B3)];

fn names(cx: &mut Ctx, rng: &mut Rng) -> R {
    let (n, h) = *rng.pick(&NAMES);
    let made = match h { H::Sha => HashType::sha512_256(), H::B2 => HashType::blake2b_256(), H::B3 => HashType::blake3_256() };
    let got = match n.parse::<HashType>() { Ok(t) => t, Err(e) => fail!("hash type {:?} is refused: {}", n, e) };
    ensure!(got == made, "{:?} gives {:?}, not {:?}", n, got, made);
    ensure!(made.to_string() == n && format!("{}", got) == n, "{:?} is printed as {:?}", n, made.to_string());
    ensure!(made.output_bytes() == 32, "{:?}: {} bytes", n, made.output_bytes());
    for (m, o) in &NAMES { ensure!((*m == n) == (o.ht() == made), "{:?} and {:?} are the same or not", m, n); }
    cx.count("names of hash types read", 1);
    let mut s = n.to_string();
    match rng.below(10) {
        0 => s.push(*rng.pick(&[' ', '\n', '0', '/', '\0'])),
        1 => s.insert(0, *rng.pick(&[' ', 's', 'b', '/'])),
        2 => { let i = rng.us(s.len()); s.remove(i); }
        3 => { let i = rng.us(s.len()); let c = s.remove(i).to_ascii_uppercase(); s.insert(i, c); }
        4 => s.truncate(rng.us(n.len())),
        5 => s = s.replace('/', *rng.pick(&["", "-", "_", " ", "//"])),
        6 => s = s.replace("256", *rng.pick(&["512", "255", "224", "0256", "256 "])),
        7 => s = rng.pick(&["sha256", "sha512", "sha3/256", "blake2s/256", "md5", "", "SHA512/256", "blake2/256"]).to_string(),
        8 => { let m = rng.pick(&NAMES).0; s.push_str(m); }
        _ => { let i = rng.us(s.len()); let c = (b'0' + rng.below(75) as u8) as char; s.replace_range(i..i + 1, &c.to_string()); }
    }
    if !NAMES.iter().any(|x| x.0 == s) {
        match s.parse::<HashType>() {
            Err(Error::UnsupportedHash) => {}
            Err(e) => fail!("{:?} is refused for another reason: {}", s, e),
            Ok(t) => fail!("{:?} is taken for {}", s, t),
        }
        cx.count("names refused", 1);
    }
    Ok(())
}

// ---- calls of setters

fn calls(cx: &mut Ctx, rng: &mut Rng) -> R {
    let mut k = knobs(rng);
    k.nodes = *rng.pick(&[1usize, 4, 12]);
    k.max_file = *rng.pick(&[200usize, 70_000]);
    let first = gen::tree(rng, &k);
    let mut pool = vec![first.clone()];
    for _ in 0..3 { pool.push(if rng.chance(1, 2) { gen::overlapping(rng, &first, &k) } else { gen::tree(rng, &k) }); }
    let f = put(cx, pool);
    let cpus = std::thread::available_parallelism().map_or(64, |n| n.get());
    let mut conf = ScannerConfig::new();
    let mut set = Set { h: H::Sha, threads: 0, auto: false, queue: None, dirs: vec![], progress: false };
    let mut log: Vec<String> = Vec::new();
    let mut scans = 0;
    let mut called: HashSet<u64> = HashSet::new();
    let n = rng.range(3, 14);
    for step in 0..n {
        let what = if step + 1 == n { 9 } else { rng.below(10) };
        if what < 7 && !called.insert(what) { cx.count("setters called again", 1); }
        match what {
            0 => {
                let (name, h) = *rng.pick(&NAMES);
                set.h = h;
                if rng.chance(1, 2) { conf.hash(h.ht()); log.push(format!("hash({})", name)); }
                else { conf.hash(name.parse().ok().unwrap_or_else(HashType::sha512_256)); log.push(format!("hash({:?}.parse())", name)); }
            }
            1 | 2 => { set.threads = *rng.pick(&[0usize, 0, 1, 2, 3, 5, 9]); set.auto = false; conf.threads(set.threads); log.push(format!("threads({})", set.threads)); }
            3 if rng.chance(1, 3) => { if cfg!(feature = "threads") { set.auto = true; } conf.auto_threads(); log.push("auto_threads()".into()); }
            3 | 4 => { let q = *rng.pick(&[0usize, 1, 2, 7, 1000, usize::MAX]); set.queue = Some(q); conf.queue_size(q); log.push(format!("queue_size({})", q)); }
            5 if rng.chance(1, 2) => { set.progress = true; conf.print_progress(); log.push("print_progress()".into()); }
            5 | 6 | 7 => { let i = rng.us(f.trees.len()); if set.dirs.len() < 5 { set.dirs.push(i); conf.add_dir(&f.roots[i].0, "/"); log.push(format!("add_dir({})", i)); } }
            _ => {
                run(cx, rng, &conf, &set, &f, &log, cpus)?;
                if scans > 0 { cx.count("scans by a config used before", 1); }
                scans += 1;
                log.push("scan".into());
            }
        }
    }
    let text = log.join(" ");
    if log.len() > 2 { cx.nontrivial(hash_bytes(text.as_bytes()) ^ fingerprint(&f.merged, "")); }
    cx.sample(|| format!("{}; {}", text, describe(&f.merged)));
    Ok(())
}

fn run(cx: &mut Ctx, rng: &mut Rng, conf: &ScannerConfig, set: &Set, f: &Forest, log: &[String], cpus: usize) -> R {
    let mut sess = conditions(rng, true);
    let base = shim::thread_count() as u64;
    let most = Arc::new(AtomicU64::new(0));
    let m2 = most.clone();
    let every = rng.range(1, 9);
    sess.pre = Some(Box::new(move |_, c| {
        if c.seq % every == 0 || c.seq < 4 { m2.fetch_max((shim::thread_count() as u64).saturating_sub(base), SeqCst); }
        Act::Pass
    }));
    let mut s = Sink::plain();
    let (r, err) = with_stderr(cx, &Err2::File, |_| shim::with(&sess, || v1::scan(conf, &mut s)));
    let what = || log.join(" ");
    let r = match r { Ok(r) => r, Err(_) => fail!("the scan panics: {} (after {})", crate::runner::LAST_PANIC.lock().unwrap().clone(), what()) };
    cx.eval();
    let most = most.load(SeqCst);
    let bound = if !cfg!(feature = "threads") { 0 } else if set.auto { cpus } else { set.threads } as u64;
    ensure!(most <= bound, "{} threads work for a scan set to {} (after {})", most, bound, what());
    ensure!(bound > 0 || sess.worker_calls.load(SeqCst) == 0, "another thread works for a scan without threads (after {})", what());
    if most == 0 { cx.count("scans without worker threads", 1); }
    cx.max("threads at once", most);
    if set.dirs.is_empty() {
        match r { Err(Error::NoRootDirectory) => {} r => fail!("a scan without a source gives {:?} (after {})", r, what()) }
        cx.count("scans without a source", 1);
        return Ok(());
    }
    if let Err(e) = r { fail!("the scan fails: {} (after {})", e, what()); }
    // sources in the order they were given
    let trees: Vec<Dir> = set.dirs.iter().map(|i| f.trees[*i].clone()).collect();
    if trees.len() > 1 { cx.count("source lists of several", 1); }
    let m = gen::merged(&trees);
    let mut ok = render(&m, set.h, Policy::Spec) == s.data;
    if !ok && set.h == H::B3 { ok = [Policy::CumAll, Policy::CumFile].iter().any(|p| render(&m, set.h, *p) == s.data); }
    ensure!(ok, "the index isn't that of the settings: {} (after {})", diff(&s.data, &render(&m, set.h, Policy::Spec)), what());
    match Parser::new(&s.data[..]) {
        Ok(p) => {
            let h = p.get_header();
            ensure!(h.get_hash_type() == set.h.ht() && h.get_block_size() == BS && h.get_version() == "v1", "the header says {:?} (after {})", h, what());
        }
        Err(e) => fail!("{} (after {})", e, what()),
    }
    let said = String::from_utf8_lossy(&err).into_owned();
    if set.progress {
        ensure!(said.contains("Done "), "no report, though it was asked for: {:?} (after {})", said, what());
        cx.count("reports asked for", 1);
    } else { ensure!(said.is_empty(), "written to the standard error unasked: {:?} (after {})", said, what()); }
    cx.count("scans compared", 1);
    Ok(())
}

// ---- as many at once as were set

struct Gate { want: usize, seen: Mutex<(HashSet<u64>, bool)>, cv: Condvar }

fn tid() -> u64 { unsafe { libc::syscall(libc::SYS_gettid) as u64 } }

fn at_once(cx: &mut Ctx, rng: &mut Rng) -> R {
    if !cfg!(feature = "threads") { return Ok(()); }
    let n = *rng.pick(&[2usize, 3, 4, 6]);
    let mut d = Dir::new();
    for i in 0..n * 3 + 2 { d.insert(format!("f{:03}", i).into_bytes(), Node::File { data: std::rc::Rc::new(rng.bytes(1 + i)), mode: 0o644, hard: 0 }); }
    // a directory between them, too
    if rng.chance(1, 2) { let s = d.clone(); d.insert(b"g".to_vec(), Node::Dir(s, 0o755)); }
    let f = put(cx, vec![d]);
    let q = *rng.pick(&[None, None, Some(n * 2), Some(n + 1), Some(1000)]);
    let c = Cfg { h: *rng.pick(&ALL_H), threads: n, queue: q, progress: false };
    let gate = Arc::new(Gate { want: n, seen: Mutex::new((HashSet::new(), false)), cv: Condvar::new() });
    let g = gate.clone();
    let mut sess = Sess::new();
    sess.pre = Some(Box::new(move |_, call| {
        if call.k != K::Read || call.main { return Act::Pass; }
        let mut s = g.seen.lock().unwrap();
        s.0.insert(tid());
        g.cv.notify_all();
        let end = Instant::now() + Duration::from_secs(5);
        while s.0.len() < g.want && !s.1 {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() { s.1 = true; break; }
            s = g.cv.wait_timeout(s, left).unwrap().0;
        }
        Act::Pass
    }));
    let out = scan_ok(cx, &c, &f.roots, &sess)?;
    let (k, late) = { let s = gate.seen.lock().unwrap(); (s.0.len(), s.1) };
    ensure!(k <= n, "{} threads hash at once, {} were set ({})", k, n, c.describe());
    if late {
        fail!("{} files are hashed at once within 5 seconds, {} threads were set and there are {} files ({})", k, n, n * 3 + 2, c.describe());
    }
    cx.count("workers at once", k as u64);
    ensure!(!out.is_empty(), "no index");
    cx.nontrivial(hash_bytes(c.describe().as_bytes()) ^ cx.idx);
    Ok(())
}
