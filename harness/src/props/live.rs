//! What a scan does to the system while it runs: containment (C18),
//! resources (C19), trees that change (C20).
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::BufReader;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use dir_signature::v1::merge::MergedSignatures;
use dir_signature::v1::{Emitter, Entry, EntryKind, Hashes, Parser};

use crate::alloc;
use crate::ctx::{Ctx, Prop, R};
use crate::gen::{self, describe};
use crate::io::{chunks, Counter, Fault, Sink, Src};
use crate::model::{check_order, read_index, show, Dir, Digests, LKind, Merged, Node, Policy, What, BS, H, ALL_H};
use crate::props::fault::{highest_fd, role, Role};
use crate::props::util::*;
use crate::rng::Rng;
use crate::shim::{self, Act, Call, Dtype, Sess, K};
use crate::{ensure, fail};

fn lstat(dirfd: i32, name: &[u8], follow: bool) -> Option<libc::stat> {
    let _by = shim::Bypass::new();
    let c = std::ffi::CString::new(name).ok()?;
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    let fl = libc::AT_EMPTY_PATH | if follow { 0 } else { libc::AT_SYMLINK_NOFOLLOW };
    if unsafe { libc::fstatat(dirfd, c.as_ptr(), &mut st, fl) } == 0 { Some(st) } else { None }
}

/// Every (device, inode) below a directory, itself included
fn inodes(p: &Path, out: &mut HashSet<(u64, u64)>) {
    fn rec(fd: i32, out: &mut HashSet<(u64, u64)>) {
        for n in gen::list(fd) {
            if let Some(st) = lstat(fd, &n, false) {
                out.insert((st.st_dev, st.st_ino));
                if st.st_mode & libc::S_IFMT == libc::S_IFDIR {
                    let c = std::ffi::CString::new(&n[..]).unwrap();
                    let f = unsafe { libc::openat(fd, c.as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC) };
                    if f >= 0 { rec(f, out); unsafe { libc::close(f); } }
                }
            }
        }
    }
    use std::os::fd::AsRawFd;
    let fd = gen::open_dir(p);
    if let Some(st) = lstat(fd.as_raw_fd(), b"", false) { out.insert((st.st_dev, st.st_ino)); }
    rec(fd.as_raw_fd(), out);
}

// ---------------------------------------------------------------- C18

pub static C18: Prop = Prop {
    id: "C18", level: "exploration",
    rule: "generated trees with links out of the sources, to pipes, devices and in cycles, scanned with a monitor on every libc call that opens, reads or changes files; in one run per call of the fault-free scan (up to 60 per tree) a file, a directory or a link is exchanged for a link that leads out of the sources just before that call, in a third of them with one to three calls in between at which there is nothing by that name; non-trivial when something below the root is opened, distinct by tree, configuration and exchange",
    quick: 1200, thorough: 40000, quick_s: 45, thorough_s: 600, run: c18,
    assumptions: &["libc calls made by std and the openat crate are seen through symbol interposition"],
    need: &["opens checked", "opens by worker threads", "exchanges made", "of them of the very name being opened", "exchanges in two steps", "trees compared before and after", "pipes and sockets in scanned trees", "links that lead out"],
};

struct Watch {
    inside: HashSet<(u64, u64)>,
    bad: Mutex<Vec<String>>,
    opens: AtomicU64,
    worker_opens: AtomicU64,
}

/// Absolute names that std and libc read to learn about the machine
pub fn system(name: &[u8]) -> bool { name.starts_with(b"/proc/") || name.starts_with(b"/sys/") }

impl Watch {
    fn say(&self, m: String) { let mut b = self.bad.lock().unwrap(); if b.len() < 5 { b.push(m); } }
    fn pre(&self, c: &Call) {
        if c.k == K::Mutate { self.say(format!("{}({}, {:?}) changes the file system", c.f, c.fd, show(&c.name))); }
        if c.k == K::Open {
            let acc = c.flags & libc::O_ACCMODE;
            if acc != libc::O_RDONLY || c.flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0 || c.flags & libc::O_TMPFILE == libc::O_TMPFILE {
                self.say(format!("{}({}, {:?}) with flags {:#o} opens for writing", c.f, c.fd, show(&c.name), c.flags));
            }
            if c.flags & libc::O_PATH == 0 && !system(&c.name) {
                if let Some(st) = lstat(c.fd as i32, &c.name, c.flags & libc::O_NOFOLLOW == 0) {
                    let t = st.st_mode & libc::S_IFMT;
                    if matches!(t, libc::S_IFIFO | libc::S_IFSOCK | libc::S_IFCHR | libc::S_IFBLK) {
                        self.say(format!("{}({}, {:?}) opens a file of type {:o}", c.f, c.fd, show(&c.name), t));
                    }
                }
            }
        }
    }
    fn post(&self, ev: &shim::Ev) {
        if ev.call.k != K::Open || ev.ret < 0 || system(&ev.call.name) { return; }
        self.opens.fetch_add(1, SeqCst);
        if !ev.call.main { self.worker_opens.fetch_add(1, SeqCst); }
        let st = match lstat(ev.ret as i32, b"", false) { Some(s) => s, None => return };
        // a handle on a link itself gives nothing to read
        if st.st_mode & libc::S_IFMT == libc::S_IFLNK && ev.call.flags & libc::O_PATH != 0 { return; }
        if !self.inside.contains(&(st.st_dev, st.st_ino)) {
            self.say(format!("{}({}, {:?}) with flags {:#o} opens something outside of the sources: {:?}", ev.call.f, ev.call.fd, show(&ev.call.name),
                ev.call.flags, show(&shim::fd_path(ev.ret as i32))));
        }
    }
}

fn watch(s: &mut Sess, w: &Arc<Watch>, before: Option<shim::PreHook>) {
    let (a, b) = (w.clone(), w.clone());
    s.pre = Some(Box::new(move |s, c| {
        let r = match before { Some(ref f) => f(s, c), None => Act::Pass };
        a.pre(c);
        r
    }));
    s.post = Some(Box::new(move |_, ev| b.post(ev)));
}

fn is_special(d: &Dir) -> u64 {
    d.values().map(|n| match n { Node::Fifo | Node::Socket => 1, Node::Dir(s, _) => is_special(s), _ => 0 }).sum()
}

/// Put links that lead out of the tree next to its nodes
fn leaks(rng: &mut Rng, d: &mut Dir, out: &Path, n: &mut u64) {
    let o = out.as_os_str().as_bytes();
    for _ in 0..rng.range(0, 3) {
        let name = gen::name(rng, 40, d);
        if d.contains_key(&name) { continue; }
        let suffix: &[u8] = rng.pick(&[&b"/file"[..], b"/dir", b"", b"/fifo", b"/dir/deep", b"/sock"]);
        let t = match rng.below(8) {
            0 => b"/".to_vec(),
            1 => b"/dev/zero".to_vec(),
            2 => b"..".to_vec(),
            3 => b"/proc/self/environ".to_vec(),
            4 => b".".to_vec(),
            _ => [o, suffix].concat(),
        };
        d.insert(name, Node::Link(t));
        *n += 1;
    }
    for x in d.values_mut() { if let Node::Dir(s, _) = x { leaks(rng, s, out, n); } }
}

fn outside(cx: &mut Ctx) -> PathBuf {
    let d = cx.dir();
    let r = (|| -> std::io::Result<()> {
        std::fs::write(d.join("file"), vec![b'S'; 31337])?;
        std::fs::create_dir_all(d.join("dir/deep"))?;
        std::fs::write(d.join("dir/file"), vec![b'T'; 31338])?;
        std::fs::write(d.join("dir/deep/file"), vec![b'U'; 31339])?;
        std::fs::create_dir(d.join("stash"))
    })();
    r.expect("harness: outside");
    for (n, t) in [(c"fifo", libc::S_IFIFO), (c"sock", libc::S_IFSOCK)] {
        use std::os::fd::AsRawFd;
        let fd = gen::open_dir(&d);
        unsafe { libc::mknodat(fd.as_raw_fd(), n.as_ptr(), t | 0o644, 0); }
    }
    d
}

fn c18(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let mut c = cfg(&mut rng);
    if cx.idx % 2 == 0 { c.threads = *rng.pick(&[2usize, 3, 4, 8]); }
    let out = outside(cx);
    let mut links = 0;
    let trees = if cx.idx < SPECIALS && cx.idx != 8 && cx.idx != 12 {
        special(cx.idx, &mut rng).unwrap().1
    } else {
        let mut k = knobs(&mut rng);
        k.max_file = k.max_file.min(70_000);
        k.nodes = *rng.pick(&[3usize, 8, 20]);
        k.max_depth = k.max_depth.min(6);
        k.other_pct = 15;
        k.hard = false;
        let mut t = vec![gen::tree(&mut rng, &k)];
        if rng.chance(1, 4) { let o = gen::overlapping(&mut rng, &t[0], &k); t.push(o); }
        for x in t.iter_mut() { leaks(&mut rng, x, &out, &mut links); }
        t
    };
    let big = cx.idx < SPECIALS;
    cx.count("links that lead out", links);
    cx.count("pipes and sockets in scanned trees", trees.iter().map(is_special).sum());
    let f = put(cx, trees);
    let mut inside = HashSet::new();
    for (p, _) in &f.roots { inside.insert((0, 0)); inodes(p, &mut inside); }
    let fresh = |inside: &HashSet<(u64, u64)>| Arc::new(Watch { inside: inside.clone(), bad: Mutex::new(vec![]), opens: AtomicU64::new(0), worker_opens: AtomicU64::new(0) });
    let before: Vec<_> = f.roots.iter().map(|(p, _)| gen::snapshot(p)).collect();
    let out_before = gen::snapshot(&out);
    // at rest
    let w = fresh(&inside);
    let mut sess = conditions(&mut rng, false);
    let dtype = sess.dtype;
    watch(&mut sess, &w, None);
    let index = scan_ok(cx, &c, &f.roots, &sess)?;
    let total = sess.total();
    settle(cx, &w, &sess, "at rest", &c)?;
    for (i, (p, _)) in f.roots.iter().enumerate() {
        let now = gen::snapshot(p);
        if now != before[i] {
            let d = now.iter().zip(&before[i]).find(|(a, b)| a != b);
            fail!("the scan changed the tree: {:?} ({})", d, c.describe());
        }
        cx.count("trees compared before and after", 1);
    }
    ensure!(gen::snapshot(&out) == out_before, "the scan changed something outside of the sources");
    no_canary(&index, c.h, "at rest")?;
    let fp = fingerprint(&f.merged, &c.describe());
    if total > 10 { cx.nontrivial(fp); }
    cx.sample(|| format!("{} calls; {}; {}", total, describe(&f.merged), c.describe()));
    if big { return Ok(()); }
    // with exchanges
    let mut at: Vec<u64> = (1..total).collect();
    rng.shuffle(&mut at);
    at.truncate(if cx.quick() { 40 } else { 60 });
    let mut all = Vec::new();
    for (i, t) in f.trees.iter().enumerate() { paths(t, &f.roots[i].0, &mut all); }
    for i in at {
        let made: Arc<Mutex<Option<(PathBuf, bool)>>> = Arc::new(Mutex::new(None));
        let (m2, out2, all2, roots2) = (made.clone(), out.clone(), all.clone(), f.roots.clone());
        let mut r2 = rng.fork(i);
        let pick = r2.next();
        // in some the name is gone for a call or two before the link is there
        let later = if r2.chance(1, 3) { r2.range(1, 3) } else { 0 };
        let wait: Mutex<Option<(u64, PathBuf, PathBuf)>> = Mutex::new(None);
        let swap: shim::PreHook = Box::new(move |_, call| {
            let mut g = m2.lock().unwrap();
            let mut wl = wait.lock().unwrap();
            if let Some((at, _, _)) = *wl {
                if call.seq >= at { let (_, p, t) = wl.take().unwrap(); std::os::unix::fs::symlink(&t, &p).expect("harness: symlink"); }
            }
            if g.is_some() || call.seq < i { return Act::Pass; }
            let mut r = Rng::new(pick);
            let named = !call.name.is_empty() && call.name != b"." && !call.name.starts_with(b"/") && call.fd >= 0;
            let p = if named && r.chance(4, 5) {
                let d = shim::fd_path(call.fd as i32);
                PathBuf::from(std::ffi::OsString::from_vec([&d[..], b"/", &call.name].concat()))
            } else if !all2.is_empty() { r.pick(&all2).clone() } else { return Act::Pass };
            if !roots2.iter().any(|(x, _)| p.starts_with(x)) { return Act::Pass; }
            let md = match std::fs::symlink_metadata(&p) { Ok(m) => m, Err(_) => return Act::Pass };
            let target = if md.is_dir() || r.chance(1, 5) {
                r.pick(&[out2.join("dir"), out2.join("dir/deep"), out2.clone(), PathBuf::from(".."), PathBuf::from("/")]).clone()
            } else {
                r.pick(&[out2.join("file"), out2.join("dir/file"), out2.join("dir/deep/file"), PathBuf::from("/etc/passwd"), out2.join("fifo"), PathBuf::from("/dev/zero")]).clone()
            };
            if std::fs::rename(&p, out2.join("stash/x")).is_err() { return Act::Pass; }
            if later > 0 { *wl = Some((call.seq + later, p.clone(), target)); }
            else { std::os::unix::fs::symlink(&target, &p).expect("harness: symlink"); }
            *g = Some((p, named));
            Act::Pass
        });
        let w = fresh(&inside);
        let mut sess = Sess::new();
        sess.dtype = dtype;
        sess.calls_limit = 100_000;
        watch(&mut sess, &w, Some(swap));
        let mut sink = Sink::plain();
        let r = scan(cx, &c, &f.roots, &mut sink, &sess)?;
        let swapped = made.lock().unwrap().take();
        if let Some((p, named)) = swapped {
            let there = std::fs::remove_file(&p).is_ok();
            ensure!(there || later > 0, "harness: the link {:?} is gone", p);
            std::fs::rename(out.join("stash/x"), &p).expect("harness: rename");
            cx.count("exchanges made", 1);
            if there && later > 0 { cx.count("exchanges in two steps", 1); }
            if named { cx.count("of them of the very name being opened", 1); }
            if r.is_err() { cx.count("exchanges that end in an error", 1); }
            let what = format!("{:?} exchanged for a link before call {}", p, i);
            settle(cx, &w, &sess, &what, &c)?;
            if r.is_ok() { no_canary(&sink.data, c.h, &what)?; }
            cx.nontrivial(fp ^ crate::rng::mix(i ^ pick));
        } else { settle(cx, &w, &sess, "without an exchange", &c)?; }
    }
    Ok(())
}

fn settle(cx: &mut Ctx, w: &Watch, s: &Sess, what: &str, c: &Cfg) -> R {
    ensure!(!s.over_limit.load(SeqCst), "the scan goes on after 100000 calls ({}; {})", what, c.describe());
    cx.count("opens checked", w.opens.load(SeqCst));
    cx.count("opens by worker threads", w.worker_opens.load(SeqCst));
    let b = w.bad.lock().unwrap();
    ensure!(b.is_empty(), "{} ({}; {})", b[0], what, c.describe());
    Ok(())
}

fn no_canary(index: &[u8], h: H, what: &str) -> R {
    for (b, n) in [(b'S', 31337usize), (b'T', 31338), (b'U', 31339)] {
        let d = crate::model::hex(&h.digest(&vec![b; n]));
        let size = format!(" {} ", n);
        for l in index.split(|&x| x == b'\n') {
            let s = String::from_utf8_lossy(l);
            ensure!(!s.contains(&d) && !s.contains(&size), "content from outside of the sources is in the index ({}): {:?}", what, s);
        }
    }
    Ok(())
}

fn paths(d: &Dir, at: &Path, out: &mut Vec<PathBuf>) {
    for (n, x) in d {
        let p = at.join(std::ffi::OsStr::from_bytes(n));
        if p.as_os_str().len() < 3000 { out.push(p.clone()); }
        if let Node::Dir(s, _) = x { paths(s, &p, out); }
    }
}

// ---------------------------------------------------------------- C19

pub static C19: Prop = Prop {
    id: "C19", level: "exploration",
    rule: "wide, deep, large and random trees, scanned with every heap request counted and every descriptor seen; scans that succeed, scans that fail at one call or one byte of output; scans where the worker of one file is held while the others run; readers, seeks, merges and emitters on long indexes; non-trivial with more than one directory or file, distinct by tree or text, configuration and fault",
    quick: 1500, thorough: 40000, quick_s: 45, thorough_s: 600, run: c19,
    assumptions: &["bounds: heap 400 KB + 4 times what the listings of the directories on one path take (160 bytes + path for each subdirectory, 120 bytes + name for each entry) + (queue + threads + 2) times a queued entry (3200 bytes for the job and its hasher, its name, 200 bytes per block) + 200 KB per thread; descriptors (depth + 2) times sources + queue + threads + 4; look-ahead 2 queue + threads + 8; threads may take until 20 s after the return to end", "leaks inside the openat crate when fdopendir fails are not counted"],
    need: &["scans measured", "scans with threads measured", "failed scans measured", "descriptors released", "scans with a held worker", "readers measured", "merges measured", "directory handles seen", "scans of huge files measured"],
};

fn heap_bound(m: &Merged, sources: usize, c: &Cfg) -> i64 {
    fn rec(m: &Merged, plen: usize, above: i64, sources: i64, best: &mut i64, biggest: &mut i64) {
        let dirs: i64 = m.dirs.keys().map(|n| (160 + plen + 2 * n.len()) as i64).sum::<i64>() * sources;
        let entries: i64 = m.entries.iter().map(|e| (120 + e.name.len()) as i64 + match e.what { What::Link(ref t) => t.len() as i64, _ => 0 }).sum();
        for e in &m.entries {
            let n = 3200 + e.name.len() as i64 + match e.what { What::File { ref data, .. } => 200 * (data.len() as i64 / BS as i64 + 1), What::Link(ref t) => t.len() as i64 };
            if n > *biggest { *biggest = n; }
        }
        *best = (*best).max(above + dirs + entries);
        for (n, d) in &m.dirs { rec(d, plen + 1 + n.len(), above + dirs, sources, best, biggest); }
    }
    let (mut best, mut biggest) = (0, 3200);
    rec(m, 0, 0, sources as i64, &mut best, &mut biggest);
    let (_, total) = m.size();
    let mut b = 400_000 + 4 * best;
    if c.threaded() {
        let q = c.queue.unwrap_or(c.threads * 16).min(total) + c.threads.min(total) + 2;
        b += q as i64 * biggest + c.threads as i64 * 200_000;
    } else { b += biggest; }
    b
}

fn c19(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    match cx.idx % 10 {
        0..=3 => c19_scan(cx, &mut rng),
        4 | 5 => c19_fail(cx, &mut rng),
        6 | 7 => c19_hold(cx, &mut rng),
        8 => c19_read(cx, &mut rng),
        _ if cx.idx % 20 == 9 => c19_sizes(cx, &mut rng),
        _ => c19_files(cx, &mut rng),
    }
}

fn leaf(n: usize, b: u8) -> Node { Node::File { data: Rc::new(vec![b; n]), mode: 0o644, hard: 0 } }

fn shape(cx: &Ctx, rng: &mut Rng) -> Vec<Dir> {
    let mut d = Dir::new();
    match (cx.idx / 10) % 12 {
        // many directories with some files each: the whole is far more than one listing
        0 | 1 if cx.idx % 2 == 0 => {
            for i in 0..120 {
                let mut s = Dir::new();
                for j in 0..50 { s.insert(format!("file-with-a-long-name-so-that-it-takes-some-memory-{:05}-{:03}", i, j).into_bytes(), leaf(3, j as u8)); }
                d.insert(format!("directory-{:04}", i).into_bytes(), Node::Dir(s, 0o755));
            }
        }
        2 if cx.idx % 4 == 0 => {
            // deep, with siblings
            d.insert(b"bottom".to_vec(), leaf(10, 1));
            for i in 0..60u32 {
                let mut up = Dir::new();
                for j in 0..4u32 {
                    let mut s = Dir::new();
                    s.insert(b"x".to_vec(), leaf(j as usize, 1));
                    up.insert(format!("side{}", j).into_bytes(), Node::Dir(s, 0o755));
                }
                up.insert(format!("down{}", i).into_bytes(), Node::Dir(d, 0o755));
                d = up;
            }
        }
        3 if cx.idx % 4 == 1 => return special(8, rng).unwrap().1,
        4 => {
            for i in 0..400 { d.insert(format!("l{:04}", i).into_bytes(), Node::Link(vec![b'z'; 2000])); }
            let mut s = Dir::new();
            for i in 0..10 { s.insert(format!("f{}", i).into_bytes(), leaf(100_000, i as u8)); }
            d.insert(b"sub".to_vec(), Node::Dir(s, 0o755));
        }
        _ => {
            let mut k = knobs(rng);
            k.max_file = k.max_file.min(100_000);
            let mut t = vec![gen::tree(rng, &k)];
            while t.len() < 3 && rng.chance(1, 3) { let o = gen::overlapping(rng, &t[0], &k); t.push(o); }
            return t;
        }
    }
    vec![d]
}

struct FdWatch { top: AtomicI64, seen: AtomicU64 }

fn watch_fds(s: &mut Sess) -> Arc<FdWatch> {
    let w = Arc::new(FdWatch { top: AtomicI64::new(-1), seen: AtomicU64::new(0) });
    let w2 = w.clone();
    s.post = Some(Box::new(move |_, ev| {
        if ev.call.k == K::Open && ev.ret >= 0 {
            // the lowest free number is used: all numbers below are open
            w2.top.fetch_max(ev.ret, SeqCst);
            w2.seen.fetch_add(1, SeqCst);
        }
    }));
    w
}

fn fd_list() -> BTreeSet<i32> {
    let _by = shim::Bypass::new();
    let mut v: BTreeSet<i32> = std::fs::read_dir("/proc/self/fd").expect("harness: /proc/self/fd")
        .filter_map(|e| e.ok().and_then(|e| e.file_name().to_str().and_then(|s| s.parse().ok()))).collect();
    // the descriptor of the listing itself
    v.retain(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } >= 0);
    v
}

fn released(cx: &mut Ctx, before: &BTreeSet<i32>, what: &str) -> R {
    let left = shim::wait_threads();
    ensure!(left == 0, "{} threads are left 20 s after the scan returned ({})", left, what);
    let now = fd_list();
    let new: Vec<String> = now.difference(before).map(|fd| format!("{}: {}", fd, show(&shim::fd_path(*fd)))).collect();
    ensure!(new.is_empty(), "descriptors are left open after the scan: {:?} ({})", new, what);
    cx.count("descriptors released", 1);
    Ok(())
}

fn c19_scan(cx: &mut Ctx, rng: &mut Rng) -> R {
    let mut c = cfg(rng);
    if cx.idx % 3 == 0 { c.queue = Some(rng.range(0, 8) as usize); }
    let f = put(cx, shape(cx, rng));
    // lazily created state of the process must not count
    let mut warm = Counter { n: 0 };
    dir_signature::v1::scan(&config(&c, &f.roots), &mut warm).ok();
    shim::wait_threads();
    let conf = config(&c, &f.roots);
    let mut sess = Sess::new();
    let w = watch_fds(&mut sess);
    if rng.chance(1, 2) { sess.jitter = rng.next() | 1; }
    let before = fd_list();
    let base = highest_fd();
    let holes = base as i64 + 1 - before.len() as i64;
    let mut sink = Counter { n: 0 };
    let (r, u) = alloc::measure(|| shim::with(&sess, || dir_signature::v1::scan(&conf, &mut sink).is_ok()));
    cx.eval();
    let what = format!("{}; {}", describe(&f.merged), c.describe());
    ensure!(matches!(r, Ok(true)), "the scan fails ({})", what);
    let lim = heap_bound(&f.merged, f.roots.len(), &c);
    cx.count("scans measured", 1);
    if c.threaded() { cx.count("scans with threads measured", 1); }
    cx.max("heap bytes of a scan", u.peak.max(0) as u64);
    cx.max("index bytes", sink.n);
    cx.max("heap in percent of the bound", (u.peak * 100 / lim).max(0) as u64);
    ensure!(u.peak <= lim, "the scan takes {} bytes of heap, bound {} ({})", u.peak, lim, what);
    ensure!(u.left <= 64_000, "{} bytes of heap are still used after the scan ({})", u.left, what);
    let open = w.top.load(SeqCst) + 1 - before.len() as i64 + holes.min(0);
    let q = if c.threaded() { c.queue.unwrap_or(c.threads * 16) + c.threads } else { 0 };
    let (dirs, entries) = f.merged.size();
    let lim = ((f.merged.depth() + 2) * f.roots.len()).min(dirs * f.roots.len() + 2) + q.min(entries + 1) + 4;
    cx.max("descriptors", open.max(0) as u64);
    cx.max("depth", f.merged.depth() as u64);
    cx.count("directory handles seen", w.seen.load(SeqCst));
    ensure!(open <= lim as i64, "{} descriptors at once, bound {} ({})", open, lim, what);
    released(cx, &before, &what)?;
    if entries + dirs > 2 { cx.nontrivial(fingerprint(&f.merged, &c.describe())); }
    cx.sample(|| format!("{}; heap {} bytes; {} descriptors", what, u.peak, open));
    Ok(())
}

fn c19_fail(cx: &mut Ctx, rng: &mut Rng) -> R {
    let c = cfg(rng);
    let mut k = knobs(rng);
    k.nodes = *rng.pick(&[4usize, 8, 20]);
    k.max_file = k.max_file.min(70_000);
    let f = forest(cx, &k, 2);
    let s0 = Sess::new();
    let good = scan_ok(cx, &c, &f.roots, &s0)?;
    let total = s0.total();
    let before = fd_list();
    for _ in 0..24 {
        let conf = config(&c, &f.roots);
        let mut sess = Sess::new();
        let mut sink = Sink::new(chunks(rng));
        sink.data.reserve(good.len() * 2);
        let what;
        if rng.chance(2, 3) {
            let i = rng.below(total);
            let errno = *rng.pick(&[libc::EIO, libc::EACCES, libc::ENOENT, libc::EMFILE]);
            let onward = rng.chance(1, 4);
            sess.pre = Some(Box::new(move |_, call| {
                if (call.seq == i || (onward && call.seq > i)) && role(call) != Role::Exempt && call.k != K::FdOpenDir { Act::Fail(errno) } else { Act::Pass }
            }));
            what = format!("call {} fails with errno {}{}; {}", i, errno, if onward { " and all after it" } else { "" }, c.describe());
        } else {
            sink.at = rng.us(good.len());
            sink.fault = Fault::Error(std::io::ErrorKind::Other);
            what = format!("sink fails after {} bytes; {}", sink.at, c.describe());
        }
        if rng.chance(1, 3) { sess.jitter = rng.next() | 1; }
        let (r, u) = alloc::measure(|| shim::with(&sess, || dir_signature::v1::scan(&conf, &mut sink).is_ok()));
        cx.eval();
        ensure!(r.is_ok(), "panic ({})", what);
        if r.unwrap() { continue; }
        ensure!(u.left <= 64_000, "{} bytes of heap are still used after the failed scan ({})", u.left, what);
        let lim = heap_bound(&f.merged, f.roots.len(), &c);
        ensure!(u.peak <= lim, "the failing scan takes {} bytes of heap, bound {} ({})", u.peak, lim, what);
        cx.count("failed scans measured", 1);
        released(cx, &before, &what)?;
        cx.nontrivial(fingerprint(&f.merged, &what));
    }
    Ok(())
}

/// One worker is held: how far do the others and the main thread get?
fn c19_hold(cx: &mut Ctx, rng: &mut Rng) -> R {
    let threads = rng.range(2, 8) as usize;
    let queue = *rng.pick(&[None, Some(0usize), Some(1), Some(2), Some(5), Some(10), Some(40)]);
    let c = Cfg { h: *rng.pick(&ALL_H), threads, queue, progress: rng.chance(1, 4) };
    let q = queue.unwrap_or(threads * 16);
    let lim = 2 * q + threads + 8;
    let n = lim * 2 + 60;
    let mut d = Dir::new();
    for i in 0..n {
        let node = if i % 7 == 3 { Node::Link(b"there".to_vec()) } else { leaf(i % 5, i as u8) };
        if rng.chance(1, 2) || i < 3 { d.insert(format!("a{:05}", i).into_bytes(), node); }
        else {
            let k = format!("z{:03}", i / 10).into_bytes();
            if let Node::Dir(s, _) = d.entry(k).or_insert_with(|| Node::Dir(Dir::new(), 0o755)) { s.insert(format!("b{:05}", i).into_bytes(), node); }
        }
    }
    let f = put(cx, vec![d]);
    let nth = if rng.chance(1, 2) { 0 } else { rng.below(n as u64 / 3) };
    let held = Arc::new((AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicBool::new(false)));
    let h2 = held.clone();
    let mut sess = Sess::new();
    sess.pre = Some(Box::new(move |s, call| {
        // .0 opens by workers so far, .1 opens at the start of the hold, .2 at its end
        if !call.main && call.k == K::Open {
            let i = h2.0.fetch_add(1, SeqCst);
            if i == nth {
                h2.1.store(i + 1, SeqCst);
                let t = std::time::Instant::now();
                let (mut last, mut same) = (s.total(), 0);
                while t.elapsed().as_millis() < 400 && same < 10 {
                    std::thread::sleep(std::time::Duration::from_millis(1));
                    let n = s.total();
                    if n == last { same += 1; } else { same = 0; last = n; }
                }
                h2.2.store(h2.0.load(SeqCst), SeqCst);
                h2.3.store(true, SeqCst);
            }
        }
        Act::Pass
    }));
    let before = fd_list();
    let w = watch_fds(&mut sess);
    let base = before.len() as i64;
    let conf = config(&c, &f.roots);
    let mut sink = Counter { n: 0 };
    let (r, u) = alloc::measure(|| shim::with(&sess, || dir_signature::v1::scan(&conf, &mut sink).is_ok()));
    cx.eval();
    let what = format!("{} entries, worker {} held; {}", n, nth, c.describe());
    ensure!(matches!(r, Ok(true)), "the scan fails ({})", what);
    ensure!(held.3.load(SeqCst), "no worker opened a file although there are {} threads ({})", threads, what);
    let ahead = held.2.load(SeqCst) - held.1.load(SeqCst);
    cx.max("files opened ahead of a held one", ahead);
    cx.count("scans with a held worker", 1);
    ensure!(ahead <= lim as u64, "{} files were opened ahead of the one that is held, bound {} ({})", ahead, lim, what);
    let open = w.top.load(SeqCst) + 1 - base;
    ensure!(open <= (2 * 3 + q + threads + 4) as i64, "{} descriptors at once ({})", open, what);
    let hb = heap_bound(&f.merged, 1, &c);
    ensure!(u.peak <= hb, "{} bytes of heap, bound {} ({})", u.peak, hb, what);
    released(cx, &before, &what)?;
    cx.nontrivial(fingerprint(&f.merged, &what));
    Ok(())
}

/// Large files: the heap does not depend on their size (but for 65 bytes per block)
fn c19_files(cx: &mut Ctx, rng: &mut Rng) -> R {
    let d = cx.dir();
    let mb = *rng.pick(&[1u64, 4, 16, 48]);
    let n = rng.range(1, 4);
    for i in 0..n { sparse(&d, &format!("f{}", i), mb << 20, &[(i, 1)]); }
    let c = Cfg { h: *rng.pick(&[H::B3, H::B2]), threads: *rng.pick(&[0usize, 2, 4]), queue: *rng.pick(&[None, Some(0), Some(2)]), progress: false };
    let conf = config(&c, &[(d.clone(), PathBuf::from("/"))]);
    let before = fd_list();
    let mut sink = Counter { n: 0 };
    let (ok, u) = alloc::measure(|| { let r = dir_signature::v1::scan(&conf, &mut sink).is_ok(); shim::wait_threads(); r });
    cx.eval();
    let what = format!("{} files of {} MB; {}", n, mb, c.describe());
    ensure!(ok, "the scan fails ({})", what);
    let per = 200 * (((mb << 20) / BS) as i64 + 1);
    let lim = 400_000 + if c.threaded() { n as i64 * per + c.threads as i64 * 200_000 } else { 0 };
    ensure!(u.peak <= lim, "{} bytes of heap, bound {} ({})", u.peak, lim, what);
    ensure!(u.left <= 64_000, "{} bytes of heap are still used after the scan ({})", u.left, what);
    cx.max("largest file in a measured scan", mb << 20);
    cx.count("scans measured", 1);
    released(cx, &before, &what)?;
    // hashing and checking a stream
    let name = d.join("f0");
    let (r, u) = alloc::measure(|| {
        let mut f = std::fs::File::open(&name).expect("harness: open");
        Hashes::hash_file(c.h.ht(), BS, &mut f).map(|x| x.0).map_err(|e| e.to_string())
    });
    ensure!(r == Ok(mb << 20), "hash_file: {:?}", r);
    ensure!(u.peak <= 200_000 + 400 * ((mb << 20) / BS) as i64, "hash_file of {} MB takes {} bytes of heap", mb, u.peak);
    cx.nontrivial(crate::rng::hash_bytes(what.as_bytes()));
    Ok(())
}

/// Files of huge sizes, of which only the first blocks are read: the heap
/// holds the digests there are, not the ones to come
fn c19_sizes(cx: &mut Ctx, rng: &mut Rng) -> R {
    let d = cx.dir();
    let size = hole(&d, "f", *rng.pick(&[1u64 << 34, 1 << 36, 1 << 38, 1 << 40, 1 << 42]));
    std::fs::write(d.join("g"), b"x").expect("harness: write");
    let c = Cfg { h: *rng.pick(&ALL_H), threads: *rng.pick(&[0usize, 2, 2, 4, 8]), queue: *rng.pick(&[None, Some(0), Some(2)]), progress: false };
    let from = rng.range(20, 400);
    let seen = AtomicU64::new(0);
    let mut s = Sess::new();
    s.pre = Some(Box::new(move |_, call| if call.k == K::Read && seen.fetch_add(1, SeqCst) >= from { Act::Fail(libc::EIO) } else { Act::Pass }));
    let conf = config(&c, &[(d.clone(), PathBuf::from("/"))]);
    let before = fd_list();
    let mut sink = Counter { n: 0 };
    let (r, u) = alloc::measure(|| { let r = shim::with(&s, || dir_signature::v1::scan(&conf, &mut sink).is_ok()); shim::wait_threads(); r });
    cx.eval();
    let what = format!("file of {} bytes, read {} fails; {}", size, from, c.describe());
    ensure!(matches!(r, Ok(false)), "the scan doesn't fail: {:?} ({})", r.is_ok(), what);
    let lim = 400_000 + 200 * from as i64 + if c.threaded() { c.threads as i64 * 200_000 } else { 0 };
    ensure!(u.peak <= lim, "{} bytes of heap, bound {} ({})", u.peak, lim, what);
    cx.max("largest file in a measured scan", size);
    cx.count("scans of huge files measured", 1);
    released(cx, &before, &what)?;
    cx.nontrivial(crate::rng::hash_bytes(what.as_bytes()));
    Ok(())
}

/// Long indexes: reading, seeking, merging, emitting
fn c19_read(cx: &mut Ctx, rng: &mut Rng) -> R {
    let h = *rng.pick(&ALL_H);
    let mut t = crate::model::header(h, BS);
    let n = *rng.pick(&[200usize, 5000, 30_000]);
    let per = rng.range(1, 200) as usize;
    let long = if rng.chance(1, 3) { rng.range(1000, 400_000) as usize } else { 0 };
    let mut longest = 0;
    for i in 0..n {
        let l = if i % per == 0 { format!("/{}d{:07}\n", if i > 0 { "" } else { "" }, i) }
            else if i % 5 == 1 { format!("  n{:07} s target-of-the-link-{}\n", i, i) }
            else if long > 0 && i == n / 2 { let k = long / 65; format!("  n{:07} f {}{}\n", i, k as u64 * BS, " 0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef".repeat(k)) }
            else { format!("  n{:07} f 5 {}\n", i, "0123456789abcdef".repeat(4)) };
        let l = if i == 0 { "/\n".to_string() } else { l };
        longest = longest.max(l.len());
        t.extend_from_slice(l.as_bytes());
    }
    t.extend_from_slice(format!("{}\n", "ab".repeat(32)).as_bytes());
    let what = format!("index of {} bytes, {} lines, longest {}", t.len(), n, longest);
    let lim = 128_000 + 12 * longest as i64;
    let (r, u) = alloc::measure(|| {
        let mut p = Parser::new(Src::new(&t, crate::io::Chunk::All)).map_err(|e| e.to_string())?;
        let mut k = 0;
        for e in p.iter() { e.map_err(|e| e.to_string())?; k += 1; }
        Ok::<usize, String>(k)
    });
    cx.eval();
    ensure!(r == Ok(n), "reading gives {:?} instead of {} entries ({})", r, n, what);
    ensure!(u.peak <= lim, "reading takes {} bytes of heap, bound {} ({})", u.peak, lim, what);
    ensure!(u.left <= 16_000, "{} bytes of heap are still used ({})", u.left, what);
    cx.count("readers measured", 1);
    cx.max("heap bytes of a reader", u.peak.max(0) as u64);
    cx.max("index bytes read", t.len() as u64);
    // seeking to the end
    let last = PathBuf::from("/zzz");
    let (r, u) = alloc::measure(|| {
        let mut p = Parser::new(Src::new(&t, crate::io::Chunk::All)).map_err(|e| e.to_string())?;
        let mut it = p.iter();
        let a = it.advance(&EntryKind::Dir(&last)).is_some();
        Ok::<bool, String>(a)
    });
    ensure!(r == Ok(false), "seeking finds {:?} ({})", r, what);
    ensure!(u.peak <= lim, "seeking takes {} bytes of heap, bound {} ({})", u.peak, lim, what);
    cx.eval();
    // merging
    let m = rng.range(1, 6) as usize;
    let (r, u) = alloc::measure(|| {
        let mut ps = Vec::new();
        for i in 0..m { ps.push((i, Parser::new(BufReader::with_capacity(4096, &t[..])).map_err(|e| e.to_string())?)); }
        let mut k = 0;
        let mut g = MergedSignatures::new(ps).map_err(|e| e.to_string())?;
        for x in g.iter() { if x.len() != m { return Err(format!("a group of {}", x.len())); } k += 1; }
        Ok::<usize, String>(k)
    });
    cx.eval();
    ensure!(r == Ok(n), "merging gives {:?} instead of {} groups ({} times {})", r, n, m, what);
    ensure!(u.peak <= 64_000 + m as i64 * (lim + 4096), "merging {} takes {} bytes of heap ({})", m, u.peak, what);
    cx.count("merges measured", 1);
    // emitting
    let mut sink = Counter { n: 0 };
    let (r, u) = alloc::measure(|| -> Result<(), String> {
        let mut p = Parser::new(Src::new(&t, crate::io::Chunk::All)).map_err(|e| e.to_string())?;
        let mut e = Emitter::new(h.ht(), BS, &mut sink).map_err(|e| e.to_string())?;
        for x in p.iter() {
            let x = x.map_err(|e| e.to_string())?;
            let r = match &x {
                Entry::Dir(p) => e.start_dir(p),
                Entry::Link(p, d) => e.add_symlink(p.file_name().unwrap(), d),
                Entry::File { path, exe, size, hashes } => e.add_file(path.file_name().unwrap(), *exe, *size, hashes),
            };
            r.map_err(|e| e.to_string())?;
        }
        e.finish().map_err(|e| e.to_string())
    });
    cx.eval();
    if let Err(e) = r { fail!("emitting: {}", e); }
    ensure!(sink.n == t.len() as u64, "{} bytes emitted instead of {}", sink.n, t.len());
    ensure!(u.peak <= lim + 64_000, "emitting takes {} bytes of heap, bound {} ({})", u.peak, lim, what);
    cx.nontrivial(crate::rng::hash_bytes(&t));
    Ok(())
}

// ---------------------------------------------------------------- C20

pub static C20: Prop = Prop {
    id: "C20", level: "exploration",
    rule: "generated trees that are changed while they are scanned: one to six changes (create, remove, rename, truncate, extend, rewrite, chmod, exchange of types) placed just before libc calls of the scan, most of them on the name the call is about; files that grow, shrink or are rewritten at every read; a thread that changes the tree all the time; non-trivial when a change was made, distinct by tree, configuration and changes",
    quick: 30000, thorough: 900000, quick_s: 60, thorough_s: 700, run: c20,
    assumptions: &["changes are placed between libc calls; the kernel makes each call atomic"],
    need: &["changes made", "on the name being looked at", "well-formed indexes", "errors returned", "untouched entries compared", "files growing at every read", "scans with a changing thread", "changes during worker calls"],
};

#[derive(Clone, Copy, Debug)]
enum Op { CreateFile, CreateDir, CreateLink, Remove, RenameNear, RenameFar, Truncate, Extend, Rewrite, Shrink, Chmod, ToDir, ToFile, ToLink, ToFifo, ToSocket, ToDirLink, Touch, Recreate }
const OPS: &[Op] = &[Op::CreateFile, Op::CreateDir, Op::CreateLink, Op::Remove, Op::Remove, Op::RenameNear, Op::RenameFar, Op::Truncate, Op::Extend,
    Op::Rewrite, Op::Shrink, Op::Chmod, Op::ToDir, Op::ToFile, Op::ToLink, Op::ToSocket, Op::ToDirLink, Op::Touch, Op::Recreate, Op::ToFifo];

fn gone(p: &Path) {
    match std::fs::symlink_metadata(p) {
        Ok(m) if m.is_dir() => { let _ = std::fs::remove_dir_all(p); }
        Ok(_) => { let _ = std::fs::remove_file(p); }
        Err(_) => {}
    }
}

/// Apply a change at `p`, note every path it may affect
fn change(op: Op, p: &Path, all: &[PathBuf], roots: &[PathBuf], r: &mut Rng, touched: &mut Vec<PathBuf>) {
    use std::os::unix::fs::{symlink, FileTypeExt, PermissionsExt};
    // inside a source, and not reached through a link that took the place of a directory
    let ok = |p: &Path| roots.iter().any(|x| p.starts_with(x) && p != x && p.ancestors().skip(1).take_while(|a| a != x)
        .all(|a| std::fs::symlink_metadata(a).map(|m| m.is_dir()).unwrap_or(false))) && p.as_os_str().len() < 3500;
    if !ok(p) { return; }
    let dir = p.parent().unwrap().to_path_buf();
    let fresh = |r: &mut Rng| {
        let n: Vec<u8> = match r.below(4) { 0 => b"0new".to_vec(), 1 => b"zznew".to_vec(), 2 => vec![b'm', r.range(1, 46) as u8], _ => { let mut v = p.file_name().unwrap_or_default().as_bytes().to_vec(); v.truncate(200); v.push(b'+'); v } };
        dir.join(std::ffi::OsStr::from_bytes(&n))
    };
    let data = |r: &mut Rng| { let n = *r.pick(&[0usize, 1, 100, 32768, 32769, 70_000]); vec![r.below(256) as u8; n] };
    let is_file = |p: &Path| std::fs::symlink_metadata(p).map(|m| m.is_file()).unwrap_or(false);
    // a pipe stays where it is, see K4: the time of an open cannot be told from outside
    if matches!(op, Op::RenameNear | Op::RenameFar) && std::fs::symlink_metadata(p).map(|m| m.file_type().is_fifo()).unwrap_or(false) { return; }
    touched.push(p.to_path_buf());
    match op {
        Op::CreateFile => { let q = fresh(r); touched.push(q.clone()); if std::fs::symlink_metadata(&q).is_err() { let d = data(r); let _ = std::fs::write(&q, d); } }
        Op::CreateDir => { let q = fresh(r); touched.push(q.clone()); if std::fs::create_dir(&q).is_ok() { let _ = std::fs::write(q.join("inner"), b"inner"); } }
        Op::CreateLink => { let q = fresh(r); touched.push(q.clone()); let _ = symlink("new target", &q); }
        Op::Remove => gone(p),
        Op::RenameNear => { let q = fresh(r); touched.push(q.clone()); if std::fs::symlink_metadata(&q).is_err() { let _ = std::fs::rename(p, &q); } }
        Op::RenameFar => {
            if all.is_empty() { return; }
            let q = r.pick(all).clone();
            if !ok(&q) { return; }
            touched.push(q.clone());
            let _ = std::fs::rename(p, &q);
        }
        Op::Truncate => if is_file(p) { let _ = std::fs::File::options().write(true).open(p).and_then(|f| f.set_len(0)); },
        Op::Shrink => if is_file(p) { let _ = std::fs::File::options().write(true).open(p).and_then(|f| { let n = f.metadata()?.len(); f.set_len(r.below(n + 1)) }); },
        Op::Extend => if is_file(p) { let d = data(r); let _ = std::fs::File::options().append(true).open(p).and_then(|mut f| std::io::Write::write_all(&mut f, &d)); },
        Op::Rewrite => if is_file(p) { let d = data(r); let _ = std::fs::write(p, d); },
        Op::Chmod => if is_file(p) { let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(*r.pick(&[0o644u32, 0o755, 0o100, 0o666]))); },
        Op::ToDir => { gone(p); if std::fs::create_dir(p).is_ok() { let _ = std::fs::write(p.join("inner"), b"inner"); } }
        Op::ToFile => { gone(p); let d = data(r); let _ = std::fs::write(p, d); }
        Op::Recreate => if is_file(p) { let d = std::fs::read(p).unwrap_or_default(); gone(p); let _ = std::fs::write(p, d); },
        Op::ToLink => { gone(p); let _ = symlink("replaced", p); }
        Op::ToDirLink => { gone(p); let _ = symlink(".", p); }
        Op::ToFifo | Op::ToSocket => {
            gone(p);
            if let Ok(c) = std::ffi::CString::new(p.as_os_str().as_bytes()) {
                let t = if matches!(op, Op::ToFifo) { libc::S_IFIFO } else { libc::S_IFSOCK };
                unsafe { libc::mknod(c.as_ptr(), t | 0o644, 0); }
            }
        }
        Op::Touch => if is_file(p) { let _ = std::fs::File::open(p).and_then(|f| f.set_modified(std::time::SystemTime::UNIX_EPOCH)); },
    }
}

fn c20(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let mut c = cfg(&mut rng);
    if rng.chance(1, 2) { c.h = *rng.pick(&[H::Sha, H::B2]); }
    let mut k = knobs(&mut rng);
    k.nodes = *rng.pick(&[3usize, 6, 12, 25]);
    k.max_file = k.max_file.min(150_000);
    k.max_depth = k.max_depth.min(8);
    k.hard = false;
    k.odd = 30;
    let f = forest(cx, &k, 2);
    let roots: Vec<PathBuf> = f.roots.iter().map(|r| r.0.clone()).collect();
    let mut all = Vec::new();
    for (i, t) in f.trees.iter().enumerate() { paths(t, &roots[i], &mut all); }
    let base = Sess::new();
    scan_ok(cx, &c, &f.roots, &base)?;
    let total = base.total();
    let touched: Arc<Mutex<Vec<PathBuf>>> = Arc::new(Mutex::new(Vec::new()));
    let made = Arc::new(AtomicU64::new(0));
    let named_hits = Arc::new(AtomicU64::new(0));
    let worker_hits = Arc::new(AtomicU64::new(0));
    let log: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let mut sess = Sess::new();
    sess.dtype = *rng.pick(&[Dtype::Keep, Dtype::Keep, Dtype::Unknown]);
    sess.calls_limit = total * 30 + 3000;
    if rng.chance(1, 4) { sess.jitter = rng.next() | 1; }
    let mode = cx.idx % 8;
    let allow_fifo = cx.idx % 40 == 3;
    let seed = rng.next();
    match mode {
        0..=4 => {
            let n = if mode == 0 { 1 } else { rng.range(1, 6) };
            let mut at: Vec<u64> = (0..n).map(|_| rng.below(total.max(1))).collect();
            at.sort();
            let state = Mutex::new((Rng::new(seed), at));
            let (touched, made, named_hits, worker_hits, log, all, roots) = (touched.clone(), made.clone(), named_hits.clone(), worker_hits.clone(), log.clone(), all.clone(), roots.clone());
            sess.pre = Some(Box::new(move |_, call| {
                let mut g = state.lock().unwrap();
                while g.1.first().map(|&a| a <= call.seq).unwrap_or(false) {
                    g.1.remove(0);
                    let r = &mut g.0;
                    let named = !call.name.is_empty() && call.name != b"." && !call.name.starts_with(b"/") && call.fd >= 0;
                    let p = if named && r.chance(2, 3) {
                        let d = shim::fd_path(call.fd as i32);
                        named_hits.fetch_add(1, SeqCst);
                        PathBuf::from(std::ffi::OsString::from_vec([&d[..], b"/", &call.name].concat()))
                    } else if call.k == K::Read && r.chance(2, 3) {
                        named_hits.fetch_add(1, SeqCst);
                        PathBuf::from(std::ffi::OsString::from_vec(shim::fd_path(call.fd as i32)))
                    } else if !all.is_empty() { r.pick(&all).clone() } else { break };
                    let mut op = *r.pick(OPS);
                    if matches!(op, Op::ToFifo) && !allow_fifo { op = Op::ToSocket; }
                    if allow_fifo && named { op = Op::ToFifo; }
                    made.fetch_add(1, SeqCst);
                    if !call.main { worker_hits.fetch_add(1, SeqCst); }
                    log.lock().unwrap().push(format!("before {} {}({}): {:?} {:?}", call.seq, call.f, show(&call.name), op, p));
                    change(op, &p, &all, &roots, r, &mut touched.lock().unwrap());
                }
                Act::Pass
            }));
        }
        5 | 6 => {
            // at every read of a file (or of one file)
            let op = *rng.pick(&[Op::Extend, Op::Extend, Op::Shrink, Op::Rewrite, Op::Truncate]);
            let (touched, made, log) = (touched.clone(), made.clone(), log.clone());
            let state = Mutex::new(Rng::new(seed));
            let roots = roots.clone();
            let grow = vec![7u8; 40_000];
            let budget = AtomicU64::new(0);
            if matches!(op, Op::Extend) { cx.count("files growing at every read", 1); }
            sess.pre = Some(Box::new(move |_, call| {
                if call.k != K::Read { return Act::Pass; }
                let p = PathBuf::from(std::ffi::OsString::from_vec(shim::fd_path(call.fd as i32)));
                if made.fetch_add(1, SeqCst) == 0 { log.lock().unwrap().push(format!("at every read: {:?}, first {:?}", op, p)); }
                let mut r = state.lock().unwrap();
                if let Op::Extend = op {
                    touched.lock().unwrap().push(p.clone());
                    if budget.fetch_add(1, SeqCst) < 2000 {
                        let _ = std::fs::File::options().append(true).open(&p).and_then(|mut f| std::io::Write::write_all(&mut f, &grow));
                    }
                } else { change(op, &p, &[], &roots, &mut r, &mut touched.lock().unwrap()); }
                Act::Pass
            }));
        }
        _ => {}
    }
    let mut sink = Sink::plain();
    let r = if mode == 7 {
        // a thread changes the tree all the time
        if sess.jitter == 0 { sess.jitter = seed | 1; }
        cx.count("scans with a changing thread", 1);
        let conf = config(&c, &f.roots);
        let stop = AtomicBool::new(false);
        let r = shim::with(&sess, || std::thread::scope(|s| {
            let (touched, made, all, roots, log, stop) = (&touched, &made, &all, &roots, &log, &stop);
            s.spawn(move || {
                let _by = shim::Bypass::new();
                let mut r = Rng::new(seed);
                if all.is_empty() { return; }
                for _ in 0..400 {
                    if stop.load(SeqCst) { break; }
                    let p = r.pick(all).clone();
                    let mut op = *r.pick(OPS);
                    if let Op::ToFifo = op { op = Op::ToFile; }
                    let mut g = touched.lock().unwrap();
                    if made.fetch_add(1, SeqCst) < 20 { log.lock().unwrap().push(format!("meanwhile: {:?} {:?}", op, p)); }
                    change(op, &p, all, roots, &mut r, &mut g);
                    drop(g);
                    for _ in 0..r.below(3000) { std::hint::spin_loop(); }
                }
            });
            struct Stop<'a>(&'a AtomicBool);
            impl<'a> Drop for Stop<'a> { fn drop(&mut self) { self.0.store(true, SeqCst); } }
            let _stop = Stop(stop);
            dir_signature::v1::scan(&conf, &mut sink)
        }));
        cx.eval();
        match r {
            Ok(r) => r,
            Err(_) => fail!("panic: {} ({})", crate::runner::LAST_PANIC.lock().unwrap(), c.describe()),
        }
    } else {
        scan(cx, &c, &f.roots, &mut sink, &sess)?
    };
    let touched = touched.lock().unwrap().clone();
    let log = log.lock().unwrap().clone();
    let what = format!("{}; {:?}", c.describe(), log);
    ensure!(!sess.over_limit.load(SeqCst), "the scan goes on after {} calls (usually {}) ({})", sess.calls_limit, total, what);
    cx.count("changes made", made.load(SeqCst));
    cx.count("on the name being looked at", named_hits.load(SeqCst));
    cx.count("changes during worker calls", worker_hits.load(SeqCst));
    if made.load(SeqCst) > 0 { cx.nontrivial(fingerprint(&f.merged, &what)); }
    cx.sample(|| format!("{}; {} -> {}", describe(&f.merged), what, match &r { Ok(()) => "index".to_string(), Err(e) => e.to_string() }));
    if sess.fifo_open.load(SeqCst) > 0 {
        cx.count("pipes opened", 1);
        cx.known("K4", format!("the scan opens a FIFO that took the place of a file and would block ({})", what))?;
    }
    match r {
        Err(e) => {
            ensure!(made.load(SeqCst) > 0, "error {} of a tree at rest ({})", e, what);
            cx.count("errors returned", 1);
            return Ok(());
        }
        Ok(()) => {}
    }
    let ix = match read_index(&sink.data, true) {
        Ok(i) => i,
        Err(b) => fail!("the index is not well-formed: line {}: {} ({})", b.row, b.msg, what),
    };
    if let Err(b) = check_order(&ix, true) { fail!("the index is out of order: line {}: {} ({})", b.row, b.msg, what); }
    cx.count("well-formed indexes", 1);
    untouched(cx, &f, &roots, &touched, &ix, &c, &what)
}

fn untouched(cx: &mut Ctx, f: &Forest, roots: &[PathBuf], touched: &[PathBuf], ix: &crate::model::Index, c: &Cfg, what: &str) -> R {
    // touched paths relative to their source
    let rel: Vec<(usize, Vec<u8>)> = touched.iter().filter_map(|p| roots.iter().position(|r| p.starts_with(r)).map(|i| {
        let s = p.strip_prefix(&roots[i]).unwrap().as_os_str().as_bytes();
        (i, if s.is_empty() { b"/".to_vec() } else { [b"/", s].concat() })
    })).collect();
    let under = |t: &[u8], p: &[u8]| t == b"/" || t == p || (p.starts_with(t) && p[t.len()..].starts_with(b"/"));
    let hit = |i: usize, p: &[u8]| rel.iter().any(|(j, t)| *j == i && under(t, p));
    let join = |d: &[u8], n: &[u8]| if d == b"/" { [b"/", n].concat() } else { [d, b"/", n].concat() };
    let mut lines: BTreeMap<(Vec<u8>, Vec<u8>), Vec<LKind>> = BTreeMap::new();
    let mut dirs: BTreeSet<Vec<u8>> = BTreeSet::new();
    for l in &ix.lines {
        if l.kind == LKind::Dir { dirs.insert(l.dir.clone()); } else { lines.entry((l.dir.clone(), l.name.clone())).or_default().push(l.kind.clone()); }
    }
    let mut known: BTreeSet<Vec<u8>> = BTreeSet::new();
    known.insert(b"/".to_vec());
    let mut bad = None;
    let mut n = 0;
    for (i, t) in f.trees.iter().enumerate() {
        let mut m = Merged::default();
        m.add(t, i);
        m.walk(&mut Vec::new(), &mut |p, m| {
            known.insert(p.to_vec());
            if !hit(i, p) && !dirs.contains(p) { bad = Some(format!("directory {:?} is missing", show(p))); }
            for e in &m.entries {
                let full = join(p, &e.name);
                known.insert(full.clone());
                if hit(i, &full) { continue; }
                let v = match lines.get_mut(&(p.to_vec(), e.name.clone())) { Some(v) => v, None => { bad = Some(format!("{:?} is missing", show(&full))); continue } };
                let pos = v.iter().position(|k| match (k, &e.what) {
                    (LKind::Link(a), What::Link(b)) => a == b,
                    (LKind::File { exe, size, digests }, What::File { exe: x, data }) => {
                        let specs = if c.h == H::B3 && !c.threaded() { vec![] } else if c.h == H::B3 { vec![Policy::Spec, Policy::CumFile] } else { vec![Policy::Spec] };
                        exe == x && *size == data.len() as u64
                            && (specs.is_empty() || specs.iter().any(|&p| Digests::new(c.h, p).file(data, BS) == *digests))
                    }
                    _ => false,
                });
                n += 1;
                match pos { Some(k) => { v.remove(k); } None => bad = Some(format!("{:?} is recorded as {:?}", show(&full), v.iter().map(|x| format!("{:?}", x).chars().take(200).collect::<String>()).collect::<Vec<_>>())) }
            }
        });
    }
    cx.count("untouched entries compared", n);
    if let Some(b) = bad { fail!("an entry that was not touched: {} ({})", b, what); }
    for l in &ix.lines {
        let full = if l.kind == LKind::Dir { l.dir.clone() } else { join(&l.dir, &l.name) };
        let there = known.contains(&full) || rel.iter().any(|(_, t)| under(t, &full));
        ensure!(there, "{:?} never existed ({})", show(&full), what);
    }
    Ok(())
}
