//! Failing sinks (C16) and failing input (C17).
use std::io::{ErrorKind, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use dir_signature::v1::{self, Error};

use crate::ctx::{Ctx, Prop, R, Violation};
use crate::gen::{describe, Knobs};
use crate::io::{chunks, Chunk, Fault, Sink, MARK};
use crate::model::{diff, Node, Dir};
use crate::props::util::*;
use crate::rng::Rng;
use crate::shim::{self, Act, Call, Dtype, Sess, K};
use crate::{ensure, fail};

// ---------------------------------------------------------------- C16

pub static C16: Prop = Prop {
    id: "C16", level: "fault_enumeration",
    rule: "small generated trees; the sink fails (persistently or once) when it has accepted n bytes, for every n up to the length of the index (or 60 random n, all line starts and all of the last 70 bytes if it is longer than 900), with every error kind and with writes that accept nothing, threads 0-17, progress on and off, short and interrupted writes; also /dev/full, closed pipes, full slices; non-trivial with at least one entry, distinct by tree, configuration, position and fault",
    quick: 240, thorough: 20000, quick_s: 45, thorough_s: 600, run: c16,
    assumptions: &["a sink accepts a prefix of each write, as the trait Write requires"],
    need: &["failures injected", "failures once only", "writes that accept nothing", "positions in the footer", "with threads", "with progress", "failing descriptors", "interrupted writes completed"],
};

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::TimedOut,
    ErrorKind::WriteZero, ErrorKind::UnexpectedEof, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::NotFound,
    ErrorKind::ConnectionReset, ErrorKind::StorageFull, ErrorKind::OutOfMemory, ErrorKind::AlreadyExists, ErrorKind::AddrInUse,
];

fn small(rng: &mut Rng) -> Knobs {
    Knobs {
        nodes: *rng.pick(&[1usize, 2, 4, 7, 12]),
        max_depth: *rng.pick(&[1usize, 2, 4]),
        odd: 40, max_file: *rng.pick(&[0usize, 100, 40_000, 100_000]),
        files_pct: 55, dirs_pct: 25, links_pct: 20, other_pct: 0, hard: false, modes: true,
    }
}

fn c16(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let mut c = cfg(&mut rng);
    c.threads = [0, 2, 1, 4, 0, 17, 3, 8][(cx.idx % 8) as usize];
    c.progress = (cx.idx / 8) % 2 == 1;
    let f = if cx.idx % 40 == 39 {
        let (_, t) = special([8u64, 1, 11, 2, 13][(cx.idx / 40 % 5) as usize], &mut rng).unwrap();
        put(cx, t)
    } else {
        let k = small(&mut rng);
        forest(cx, &k, 2)
    };
    let good = scan_ok(cx, &c, &f.roots, &Sess::new())?;
    let n = good.len();
    let fp = fingerprint(&f.merged, &c.describe());
    let real = f.merged.size().1 > 0;
    cx.sample(|| format!("index of {} bytes; {}; {}", n, describe(&f.merged), c.describe()));
    let mut at: Vec<usize> = if n <= 900 && (c.threads < 17) { (0..n).collect() } else {
        let mut v: Vec<usize> = (0..60).map(|_| rng.us(n)).collect();
        let starts: Vec<usize> = (0..n).filter(|&i| good[i] == b'\n').flat_map(|i| [i, i + 1]).filter(|&i| i < n).collect();
        if starts.len() < 100 { v.extend(starts); } else { for _ in 0..40 { v.push(*rng.pick(&starts)); } }
        v.extend(n.saturating_sub(70)..n);
        v
    };
    at.sort(); at.dedup();
    let thr = c.threaded();
    for &p in &at {
        let mut sink = Sink::new(chunks(&mut rng));
        sink.at = p;
        sink.budget = 1000;
        let kind = *rng.pick(KINDS);
        sink.fault = if rng.chance(1, 8) { Fault::Zero } else { Fault::Error(kind) };
        let once = rng.chance(1, 3);
        if once { sink.transient = 1; }
        if rng.chance(1, 6) { sink.intr = rng.range(2, 5); }
        let fault = sink.fault;
        let mut sess = Sess::new();
        if thr && rng.chance(1, 2) { sess.jitter = rng.next() | 1; }
        let r = scan(cx, &c, &f.roots, &mut sink, &sess)?;
        let what = format!("sink fails with {:?}{} after {} of {} bytes; {}", fault, if once { " once" } else { "" }, p, n, c.describe());
        ensure!(sink.failed > 0 || r.is_err(), "the sink was not called for byte {} ({})", p, what);
        sink_error(r, fault, &what)?;
        ensure!(good.starts_with(&sink.data), "the bytes accepted are not a prefix of the index: {} ({})", diff(&sink.data, &good), what);
        cx.count("failures injected", 1);
        if once { cx.count("failures once only", 1); }
        if fault == Fault::Zero { cx.count("writes that accept nothing", 1); }
        if p >= n - 65 { cx.count("positions in the footer", 1); }
        if thr { cx.count("with threads", 1); }
        if c.progress { cx.count("with progress", 1); }
        if real { cx.nontrivial(fp ^ crate::rng::mix(p as u64 * 64 + match fault { Fault::Zero => 40, _ => kind as u64 } + 20 * once as u64)); }
    }
    // interrupted and short writes are completed
    for _ in 0..4 {
        let mut sink = Sink::new(chunks(&mut rng));
        sink.intr = rng.range(2, 7);
        let what = format!("{:?}, every {}. write interrupted; {}", sink.cut, sink.intr, c.describe());
        match scan(cx, &c, &f.roots, &mut sink, &conditions(&mut rng, false))? {
            Ok(()) => {}
            Err(e) => fail!("scan fails: {} ({})", e, what),
        }
        ensure!(sink.data == good, "output differs: {} ({})", diff(&sink.data, &good), what);
        cx.count("interrupted writes completed", sink.calls / sink.intr);
    }
    descriptors(cx, &mut rng, &c, &f, &good)
}

fn sink_error(r: Result<(), Error>, fault: Fault, what: &str) -> R {
    match r {
        Ok(()) => fail!("the scan reports success ({})", what),
        Err(Error::WriteError(e)) => match fault {
            Fault::Error(k) => {
                ensure!(e.kind() == k, "the error has kind {:?} ({})", e.kind(), what);
                ensure!(e.to_string().contains(MARK), "the sink's error is lost: {:?} ({})", e, what);
            }
            _ => ensure!(e.kind() == ErrorKind::WriteZero, "kind {:?} of {:?} instead of WriteZero ({})", e.kind(), e, what),
        },
        Err(e) => fail!("not a write error: {:?} ({})", e, what),
    }
    Ok(())
}

/// Sinks of the operating system and of std
fn descriptors(cx: &mut Ctx, rng: &mut Rng, c: &Cfg, f: &Forest, good: &[u8]) -> R {
    let conf = config(c, &f.roots);
    let n = good.len();
    // a slice that is too short
    let room = rng.us(n);
    let mut buf = vec![0u8; room];
    {
        let mut s = &mut buf[..];
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v1::scan(&conf, &mut s)));
        match r {
            Ok(r) => sink_error(r, Fault::Zero, &format!("slice of {} bytes for an index of {}; {}", room, n, c.describe()))?,
            Err(_) => fail!("panic with a slice of {} bytes for an index of {}", room, n),
        }
    }
    ensure!(good.starts_with(&buf), "slice of {} bytes: {}", room, diff(&buf, good));
    // a slice that is long enough
    let mut buf = vec![0u8; n];
    { let mut s = &mut buf[..]; if let Err(e) = v1::scan(&conf, &mut s) { fail!("scan into a slice of the right length fails: {}", e); } }
    ensure!(buf == good, "slice: {}", diff(&buf, good));
    cx.eval(); cx.eval();
    // full device, closed pipe
    if let Some(mut full) = dev_full() {
        sys_error(v1::scan(&conf, &mut full), libc::ENOSPC, "sink is /dev/full", c)?;
        // a buffered writer over a failing one: reported by the scan or by flush
        let mut bw = std::io::BufWriter::with_capacity(rng.range(1, 200) as usize, &mut full);
        let r = v1::scan(&conf, &mut bw);
        ensure!(r.is_err() || bw.flush().is_err(), "buffered /dev/full accepted everything");
        std::mem::forget(bw.into_parts());
    } else { cx.count("no full device here", 1); }
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) == 0, "harness: pipe");
        libc::close(fds[0]);
    }
    let mut w = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]) };
    sys_error(v1::scan(&conf, &mut w), libc::EPIPE, "sink is a closed pipe", c)?;
    drop(w);
    // a pipe that nobody reads: full at some point, non-blocking
    unsafe { assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC | libc::O_NONBLOCK) == 0, "harness: pipe"); libc::fcntl(fds[1], libc::F_SETPIPE_SZ, 4096); }
    let mut w = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]) };
    let r = v1::scan(&conf, &mut w);
    if n > 65536 { sys_error(r, libc::EAGAIN, "sink is a full pipe", c)?; }
    unsafe { libc::close(fds[0]); }
    cx.count("failing descriptors", 4);
    cx.eval(); cx.eval();
    shim::wait_threads();
    Ok(())
}

fn sys_error(r: Result<(), Error>, errno: i32, what: &str, c: &Cfg) -> R {
    match r {
        Err(Error::WriteError(e)) => ensure!(e.raw_os_error() == Some(errno), "{}: error {:?} ({})", what, e, c.describe()),
        r => fail!("{}: the scan returns {:?} ({})", what, r, c.describe()),
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

pub static C17: Prop = Prop {
    id: "C17", level: "fault_enumeration",
    rule: "generated trees; every libc call of the fault-free scan that opens, lists, inspects or reads (all of them up to 260 calls, else 260 random ones) is failed in a scan of its own with an errno that fits the call, once or from that call on; threads 0-17, entry types known and unknown; also missing and unsuitable roots, descriptor limits from 0 to 30 above those in use, and scans as an unprivileged user with unreadable nodes; non-trivial when the failed call is below the root, distinct by tree, configuration, call and errno",
    quick: 2000, thorough: 60000, quick_s: 45, thorough_s: 600, run: c17,
    assumptions: &["libc calls made by std and the openat crate are seen through symbol interposition", "close() and readlink of /proc/self/fd are not input of the scan and are not failed"],
    need: &["directory opens failed", "listings failed", "stats failed", "file opens failed", "file reads failed", "links failed", "later listing calls failed", "in worker threads", "interrupted reads retried", "descriptor limits", "bad roots", "from one call on", "files of huge sizes"],
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role { Root, Dir, Entry, File, Exempt }

/// What a call is about (asked before it runs)
pub fn role(c: &Call) -> Role {
    match c.k {
        K::Open => {
            if crate::props::live::system(&c.name) { Role::Exempt }
            else if c.flags & libc::O_PATH != 0 && c.fd == libc::AT_FDCWD as i64 { Role::Root }
            else if c.flags & (libc::O_PATH | libc::O_DIRECTORY) != 0 || c.name == b"." { Role::Dir }
            else { Role::File }
        }
        K::FdOpenDir | K::ReadDir => Role::Dir,
        K::Stat => {
            if c.name.is_empty() {
                if c.f == "statx" && c.flags & libc::AT_EMPTY_PATH == 0 { return Role::Exempt; }
                if shim::fd_type(c.fd as i32) == libc::S_IFDIR { Role::Entry } else { Role::File }
            } else if c.name.starts_with(b"/proc/") { Role::Exempt } else { Role::Entry }
        }
        K::Read => Role::File,
        K::ReadLink => if c.name.starts_with(b"/proc/") { Role::Exempt } else { Role::File },
        K::Close | K::CloseDir | K::Mutate => Role::Exempt,
    }
}

const ERRNOS: &[i32] = &[
    libc::EACCES, libc::EIO, libc::ENOENT, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ELOOP, libc::ENOTDIR,
    libc::ESTALE, libc::EPERM, libc::ENXIO, libc::ETIMEDOUT, libc::EOVERFLOW, libc::EISDIR, libc::ENAMETOOLONG,
    libc::EAGAIN, libc::EBADF, libc::ENODEV, libc::EINVAL, libc::EFAULT,
];

pub fn error_of(e: &Error) -> (&'static str, Option<&std::io::Error>) {
    match e {
        Error::WriteError(x) => ("WriteError", Some(x)),
        Error::OpenDir(x) => ("OpenDir", Some(x)),
        Error::ListDir(x) => ("ListDir", Some(x)),
        Error::ReadFile(x) => ("ReadFile", Some(x)),
        Error::NoRootDirectory => ("NoRootDirectory", None),
        Error::UnsupportedHash => ("UnsupportedHash", None),
        _ => ("other", None),
    }
}

fn c17(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let mut c = cfg(&mut rng);
    if cx.idx % 4 == 1 { c.threads = 0; }
    if cx.idx % 60 == 2 { return c17_sizes(cx, &mut rng); }
    match cx.idx % 10 {
        7 => return c17_limit(cx, &mut rng, &c),
        8 => return c17_nobody(cx, &mut rng, &c),
        9 => return c17_roots(cx, &mut rng, &c),
        _ => {}
    }
    let mut k = small(&mut rng);
    k.nodes = *rng.pick(&[3usize, 6, 10, 16]);
    k.hard = false;
    if rng.chance(1, 6) { k.max_file = 300_000; }
    k.other_pct = *rng.pick(&[0u64, 10]);
    let f = forest(cx, &k, 3);
    let dtype = *rng.pick(&[Dtype::Keep, Dtype::Keep, Dtype::Unknown, Dtype::Mixed]);
    let shuffle = if rng.chance(1, 2) { Some(rng.next()) } else { None };
    let fresh = || { let mut s = Sess::new(); s.dtype = dtype; s.shuffle = shuffle; s };
    let mut s0 = fresh();
    s0.log = Some(Mutex::new(Vec::new()));
    let good = scan_ok(cx, &c, &f.roots, &s0)?;
    let total = s0.total();
    let fp = fingerprint(&f.merged, &c.describe());
    cx.sample(|| format!("{} calls; {}; {}; entry types {:?}", total, describe(&f.merged), c.describe(), dtype));
    let mut at: Vec<u64> = (0..total).collect();
    if at.len() > 260 { rng.shuffle(&mut at); at.truncate(260); }
    let progress = c.progress;
    for i in at {
        let errno = *rng.pick(ERRNOS);
        let onward = rng.chance(1, 6);
        let eintr = !onward && rng.chance(1, 12);
        let hit: Arc<Mutex<Option<(Call, Role)>>> = Arc::new(Mutex::new(None));
        let more = Arc::new(AtomicU64::new(0));
        let mut s = fresh();
        {
            let (hit, more) = (hit.clone(), more.clone());
            s.pre = Some(Box::new(move |_, call| {
                if call.seq < i || (call.seq > i && !onward) { return Act::Pass; }
                let ro = role(call);
                if ro == Role::Exempt { return Act::Pass; }
                let mut g = hit.lock().unwrap();
                if g.is_none() {
                    if !onward && call.seq != i { return Act::Pass; }
                    *g = Some((call.clone(), ro));
                } else { more.fetch_add(1, SeqCst); }
                Act::Fail(if eintr { libc::EINTR } else { errno })
            }));
        }
        c.progress = progress && rng.chance(1, 4);
        if c.threaded() && rng.chance(1, 3) { s.jitter = rng.next() | 1; }
        let mut sink = Sink::new(Chunk::All);
        let r = scan(cx, &c, &f.roots, &mut sink, &s)?;
        let (call, ro) = match hit.lock().unwrap().take() {
            Some(x) => x,
            None => {
                // an exempt call, or the schedule had fewer calls
                match r {
                    Ok(()) => ensure!(sink.data == good, "output differs without a fault: {}", diff(&sink.data, &good)),
                    Err(e) => fail!("scan fails without a fault: {}", e),
                }
                continue;
            }
        };
        let what = format!("{}({:?}, {:?}) {} {} with errno {}; {}", call.f, call.fd, crate::model::show(&call.name),
            if call.main { "" } else { "of a worker" }, if onward { "and all later calls fail" } else { "fails" },
            if eintr { libc::EINTR } else { errno }, c.describe());
        let counter = match (ro, call.k) {
            (Role::Root, _) => "root opens failed",
            (Role::Dir, K::Open) => "directory opens failed",
            (Role::Dir, _) => "listings failed",
            (Role::Entry, _) => "stats failed",
            (_, K::Stat) => "stats failed",
            (_, K::Open) => "file opens failed",
            (_, K::ReadLink) => "links failed",
            _ => "file reads failed",
        };
        if eintr {
            match r {
                Ok(()) => {
                    ensure!(sink.data == good, "success with a different index: {} ({})", diff(&sink.data, &good), what);
                    if call.k == K::Read { cx.count("interrupted reads retried", 1); }
                }
                Err(e) => {
                    ensure!(call.k != K::Read, "an interrupted read is not retried: {} ({})", e, what);
                    match_error(&e, ro, libc::EINTR, &what)?;
                }
            }
            continue;
        }
        let e = match r {
            Ok(()) => {
                let d = if sink.data == good { "the full index".to_string() } else { format!("a different index: {}", diff(&sink.data, &good)) };
                fail!("success with {} ({})", d, what)
            }
            Err(e) => e,
        };
        // with several workers another failed call may be reported first
        let ro = if onward && more.load(SeqCst) > 0 && c.threaded() { None } else { Some(ro) };
        match ro {
            Some(ro) => match_error(&e, ro, errno, &what)?,
            None => {
                let (k, inner) = error_of(&e);
                ensure!(matches!(k, "OpenDir" | "ListDir" | "ReadFile") && inner.and_then(|x| x.raw_os_error()) == Some(errno), "error {} {:?} ({})", k, inner, what);
            }
        }
        cx.count(counter, 1);
        if call.k == K::ReadDir && i > 8 { cx.count("later listing calls failed", 1); }
        if !call.main { cx.count("in worker threads", 1); }
        if onward { cx.count("from one call on", 1); }
        cx.seen("errnos", &format!("{}", errno));
        if call.seq > 2 { cx.nontrivial(fp ^ crate::rng::mix(i * 256 + errno as u64)); }
    }
    Ok(())
}

fn match_error(e: &Error, ro: Role, errno: i32, what: &str) -> R {
    let (k, inner) = error_of(e);
    let ok = match ro {
        Role::Root | Role::Dir => k == "OpenDir" || k == "ListDir",
        Role::File => k == "ReadFile",
        Role::Entry => k == "OpenDir" || k == "ListDir" || k == "ReadFile",
        Role::Exempt => true,
    };
    ensure!(ok, "error of the wrong kind {} ({:?}) for {:?}: {}", k, inner, ro, what);
    let got = inner.and_then(|x| x.raw_os_error());
    ensure!(got == Some(errno), "the system's error is lost: {:?} instead of errno {}: {}", inner, errno, what);
    Ok(())
}

/// Descriptor limits
/// Files of any size a file system admits, with a read that fails before their end
fn c17_sizes(cx: &mut Ctx, rng: &mut Rng) -> R {
    let d = cx.dir();
    for n in ["a", "m", "z"] { std::fs::write(d.join(n), rng.bytes(500)).expect("harness: write"); }
    let max = i64::MAX as u64;
    let want = [max, 1 << 50, 1 << 62, 1 << 46, max - 70_000, 1 << 40, 1 << 59, 1 << 57, 1 << 54, (1 << 61) + 5];
    for (i, w) in want.iter().enumerate() {
        let name = *rng.pick(&["0", "b", "zz"]);
        let size = hole(&d, name, *w);
        let mut c = cfg(rng);
        c.threads = [2usize, 0, 4, 1, 3, 9][(i + cx.idx as usize / 60) % 6];
        let (from, errno) = (rng.range(10, 60), *rng.pick(&[libc::EIO, libc::ENXIO, libc::ESTALE]));
        let seen = AtomicU64::new(0);
        let mut s = Sess::new();
        s.pre = Some(Box::new(move |_, call| if call.k == K::Read && seen.fetch_add(1, SeqCst) >= from { Act::Fail(errno) } else { Act::Pass }));
        let mut sink = Sink::plain();
        let roots = [(d.clone(), PathBuf::from("/"))];
        let r = scan(cx, &c, &roots, &mut sink, &s)?;
        let what = format!("file of {} bytes whose read {} fails; {}", size, from, c.describe());
        match r {
            Ok(()) => fail!("success ({})", what),
            Err(e) => {
                let (k, inner) = error_of(&e);
                ensure!(k == "ReadFile" && inner.and_then(|x| x.raw_os_error()) == Some(errno), "error {} {:?} instead of errno {} ({})", k, inner, errno, what);
            }
        }
        cx.count("files of huge sizes", 1);
        cx.max("largest file", size);
        cx.nontrivial(crate::rng::hash_bytes(what.as_bytes()));
        std::fs::remove_file(d.join(name)).expect("harness: remove");
    }
    Ok(())
}

fn c17_limit(cx: &mut Ctx, rng: &mut Rng, c: &Cfg) -> R {
    let mut k = small(rng);
    k.nodes = *rng.pick(&[8usize, 20, 40]);
    k.max_depth = *rng.pick(&[3usize, 8, 15]);
    k.dirs_pct = 45; k.other_pct = 0;
    let f = forest(cx, &k, 3);
    let good = scan_ok(cx, c, &f.roots, &Sess::new())?;
    let base = highest_fd() + 1;
    for extra in 0..30u64 {
        let mut old: libc::rlimit = unsafe { std::mem::zeroed() };
        let mut sink = Sink::plain();
        unsafe {
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
            let new = libc::rlimit { rlim_cur: base as u64 + extra, rlim_max: old.rlim_max };
            assert!(libc::setrlimit(libc::RLIMIT_NOFILE, &new) == 0, "harness: setrlimit");
        }
        let conf = config(c, &f.roots);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v1::scan(&conf, &mut sink)));
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &old); }
        shim::wait_threads();
        cx.eval();
        let what = format!("{} descriptors; {}", extra, c.describe());
        match r {
            Err(_) => fail!("panic: {} ({})", crate::runner::LAST_PANIC.lock().unwrap(), what),
            Ok(Ok(())) => ensure!(sink.data == good, "success with a different index: {} ({})", diff(&sink.data, &good), what),
            Ok(Err(e)) => {
                let (k, inner) = error_of(&e);
                ensure!(matches!(k, "OpenDir" | "ListDir" | "ReadFile") && inner.and_then(|x| x.raw_os_error()) == Some(libc::EMFILE),
                    "error {} {:?} ({})", k, inner, what);
                cx.count("descriptor limits", 1);
                cx.nontrivial(fingerprint(&f.merged, &what));
            }
        }
    }
    Ok(())
}

pub fn highest_fd() -> i32 {
    let _by = shim::Bypass::new();
    std::fs::read_dir("/proc/self/fd").expect("harness: /proc/self/fd")
        .filter_map(|e| e.ok().and_then(|e| e.file_name().to_str().and_then(|s| s.parse().ok())))
        .max().unwrap_or(2)
}

/// Roots that are not there or not directories
fn c17_roots(cx: &mut Ctx, rng: &mut Rng, c: &Cfg) -> R {
    use std::os::unix::fs::symlink;
    let k = small(rng);
    let f = forest(cx, &k, 1);
    let good = scan_ok(cx, c, &f.roots, &Sess::new())?;
    let d = cx.dir();
    std::fs::write(d.join("file"), b"x").expect("harness: write");
    symlink("nowhere", d.join("dangling")).expect("harness: symlink");
    symlink("loop", d.join("loop")).expect("harness: symlink");
    symlink("file", d.join("tofile")).expect("harness: symlink");
    let long = "x".repeat(300);
    use std::os::unix::ffi::OsStringExt;
    let bad: Vec<(&str, PathBuf, Option<i32>)> = vec![
        ("missing", d.join("missing"), Some(libc::ENOENT)),
        ("below a missing one", d.join("missing/x"), Some(libc::ENOENT)),
        ("a file", d.join("file"), Some(libc::ENOTDIR)),
        ("below a file", d.join("file/x"), Some(libc::ENOTDIR)),
        ("a dangling link", d.join("dangling"), Some(libc::ENOENT)),
        ("a looping link", d.join("loop"), Some(libc::ELOOP)),
        ("a link to a file", d.join("tofile"), Some(libc::ENOTDIR)),
        ("a long name", d.join(&long), Some(libc::ENAMETOOLONG)),
        ("an empty path", PathBuf::new(), Some(libc::ENOENT)),
        ("a path with a zero byte", PathBuf::from(std::ffi::OsString::from_vec(b"/tmp/a\0b".to_vec())), None),
    ];
    for (name, p, errno) in &bad {
        for pos in 0..2 {
            let mut roots = f.roots.clone();
            roots.insert(pos, (p.clone(), PathBuf::from("/")));
            let mut sink = Sink::plain();
            let r = scan(cx, c, &roots, &mut sink, &Sess::new())?;
            let what = format!("root {} is {}; {}", pos, name, c.describe());
            match r {
                Ok(()) => fail!("success ({})", what),
                Err(e) => {
                    let (k, inner) = error_of(&e);
                    ensure!(k == "OpenDir" || k == "ListDir", "error {} {:?} ({})", k, inner, what);
                    let got = inner.and_then(|x| x.raw_os_error());
                    ensure!(errno.is_none() || got == *errno, "error {:?} instead of errno {:?} ({})", inner, errno, what);
                }
            }
            cx.count("bad roots", 1);
            cx.nontrivial(crate::rng::hash_bytes(what.as_bytes()));
        }
    }
    // no roots at all
    let mut sink = Sink::plain();
    match scan(cx, c, &[], &mut sink, &Sess::new())? {
        Ok(()) => fail!("a scan of nothing succeeds: {:?}", crate::model::show(&sink.data)),
        Err(_) => cx.count("bad roots", 1),
    }
    let again = scan_ok(cx, c, &f.roots, &Sess::new())?;
    ensure!(again == good, "the output changes after failed scans: {}", diff(&again, &good));
    Ok(())
}

fn nodes(d: &Dir, path: &PathBuf, out: &mut Vec<(PathBuf, char)>) {
    use std::os::unix::ffi::OsStrExt;
    for (n, x) in d {
        let p = path.join(std::ffi::OsStr::from_bytes(n));
        match x {
            Node::Dir(s, _) => { out.push((p.clone(), 'd')); nodes(s, &p, out); }
            Node::File { .. } => out.push((p, 'f')),
            _ => {}
        }
    }
}

/// As an unprivileged user, with one unreadable node
fn c17_nobody(cx: &mut Ctx, rng: &mut Rng, c: &Cfg) -> R {
    use std::os::unix::fs::PermissionsExt;
    let mut k = small(rng);
    k.nodes = 12; k.modes = false;
    let f = forest(cx, &k, 2);
    let mut all = Vec::new();
    for (i, t) in f.trees.iter().enumerate() {
        all.push((f.roots[i].0.clone(), 'd'));
        nodes(t, &f.roots[i].0, &mut all);
    }
    for (p, k) in &all {
        if p.as_os_str().len() > 3000 { return Ok(()); }
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(if *k == 'd' { 0o755 } else { 0o644 })).expect("harness: chmod");
    }
    let good = match as_nobody(c, &f.roots)? {
        None => { cx.count("setuid is not available", 1); cx.eval(); return Ok(()); }
        Some((0, _, d)) => d,
        Some((code, e, _)) => fail!("scan of a readable tree as nobody: error {} errno {}", code, e),
    };
    cx.eval();
    for _ in 0..6 {
        let (p, kind) = all[rng.us(all.len())].clone();
        let mode = *rng.pick(&[0u32, 0o700, 0o711, 0o600, 0o444, 0o111]);
        let readable = match kind { 'd' => mode & 5 == 5, _ => mode & 4 == 4 };
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode)).expect("harness: chmod");
        let r = as_nobody(c, &f.roots)?;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(if kind == 'd' { 0o755 } else { 0o644 })).expect("harness: chmod");
        cx.eval();
        let what = format!("{} {:?} has mode {:o}; {}", kind, p, mode, c.describe());
        let (code, errno, data) = r.unwrap();
        if readable {
            ensure!(code == 0, "scan as nobody fails with {} errno {} ({})", code, errno, what);
            continue;
        }
        ensure!(code != 0, "success of a scan that can't read everything{} ({})", if data == good { "" } else { ", with a different index" }, what);
        ensure!(errno == libc::EACCES, "error {} errno {} ({})", code, errno, what);
        ensure!(if kind == 'f' { code == 3 } else { code == 1 || code == 2 }, "error of the wrong kind: {} ({})", code, what);
        cx.count("unreadable nodes", 1);
        cx.nontrivial(fingerprint(&f.merged, &what));
    }
    Ok(())
}

/// (0 = success, 1 OpenDir, 2 ListDir, 3 ReadFile, 4 other, 5 panic; errno; output)
fn as_nobody(c: &Cfg, roots: &[(PathBuf, PathBuf)]) -> Result<Option<(u8, i32, Vec<u8>)>, Violation> {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    shim::wait_threads();
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) == 0, "harness: pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            libc::close(fds[0]);
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            if libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(65534) != 0 || libc::setuid(65534) != 0 { libc::_exit(9); }
            let conf = config(c, roots);
            let mut out = Vec::new();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v1::scan(&conf, &mut out)));
            let (code, errno) = match r {
                Err(_) => (5u8, 0),
                Ok(Ok(())) => (0, 0),
                Ok(Err(e)) => {
                    let (k, inner) = error_of(&e);
                    (match k { "OpenDir" => 1, "ListDir" => 2, "ReadFile" => 3, _ => 4 }, inner.and_then(|x| x.raw_os_error()).unwrap_or(0))
                }
            };
            let mut m = vec![code];
            m.extend_from_slice(&errno.to_le_bytes());
            m.extend_from_slice(&out);
            let _ = w.write_all(&m);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut v = Vec::new();
        r.read_to_end(&mut v).expect("harness: pipe");
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 9 { return Ok(None); }
        if v.len() < 5 { fail!("the scanning process dies (status {:#x})", st); }
        let errno = i32::from_le_bytes([v[1], v[2], v[3], v[4]]);
        if v[0] == 5 { fail!("panic while scanning as an unprivileged user"); }
        Ok(Some((v[0], errno, v[5..].to_vec())))
    }
}

