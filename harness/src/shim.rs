//! Interposition on the libc calls through which the code under test reaches
//! the file system. The functions below are exported by this executable, so
//! they take precedence over libc's for everything linked into it (std and
//! the openat crate included). A call of a thread that is not part of the
//! harness, while a session is armed, is reported to the session, which may
//! log it, fail it, shorten it, delay it, or change the tree before it runs.
#![allow(non_camel_case_types)]
#![allow(invalid_runtime_symbol_definitions)]
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

use crate::rng::{mix, Rng};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    /// open or openat
    Open,
    FdOpenDir,
    ReadDir,
    CloseDir,
    Close,
    Read,
    ReadLink,
    /// any kind of stat
    Stat,
    /// a call that changes the file system
    Mutate,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub seq: u64,
    pub k: K,
    /// name of the libc function
    pub f: &'static str,
    pub main: bool,
    /// directory descriptor or descriptor (or DIR* key)
    pub fd: i64,
    pub name: Vec<u8>,
    pub flags: i32,
    /// requested length of a read
    pub len: usize,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub call: Call,
    pub ret: i64,
    pub err: i32,
    /// canonical path of the opened descriptor, its file type and inode
    pub path: Vec<u8>,
    pub ftype: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Pass,
    Fail(i32),
    /// limit the read to this many bytes
    Short(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dtype { Keep, Unknown, Mixed }

pub type PreHook = Box<dyn Fn(&Sess, &Call) -> Act + Send + Sync>;
pub type PostHook = Box<dyn Fn(&Sess, &Ev) + Send + Sync>;

pub struct Sess {
    pub log: Option<Mutex<Vec<Ev>>>,
    pub resolve: bool,
    pub pre: Option<PreHook>,
    pub post: Option<PostHook>,
    /// shuffle directory listings with this seed
    pub shuffle: Option<u64>,
    pub dtype: Dtype,
    /// short reads: 0 = off, otherwise seed
    pub short: u64,
    /// probability (in 1/256) that a read is interrupted first
    pub eintr: u64,
    /// delays of calls by worker threads and the main thread
    pub jitter: u64,
    pub seq: AtomicU64,
    pub counts: [AtomicU64; 10],
    pub injected: AtomicU64,
    pub calls_limit: u64,
    pub over_limit: AtomicBool,
    pub fifo_open: AtomicU64,
    pub worker_calls: AtomicU64,
    pub order: AtomicU64,
    /// the clock of the scan: it stands still between calls and moves on by
    /// a random step at each of them (the largest step in nanoseconds)
    pub clock: Option<(u64, u64)>,
    /// numbers, links, owners, blocks and times are those of odder file systems
    pub stats: Option<u64>,
    pub clock_base: [i64; 2],
    pub clock_ns: AtomicU64,
    pub clock_reads: AtomicU64,
    /// what the environment, the terminal and the user are: 0 = real, otherwise seed
    pub env: u64,
    pub env_reads: AtomicU64,
}

/// Seed of the environments of the sessions made from now on
pub static ENV: AtomicU64 = AtomicU64::new(0);

impl Sess {
    pub fn new() -> Sess {
        Sess {
            log: None, resolve: false, pre: None, post: None,
            shuffle: None, dtype: Dtype::Keep, short: 0, eintr: 0, jitter: 0,
            seq: AtomicU64::new(0), counts: Default::default(),
            injected: AtomicU64::new(0),
            calls_limit: u64::MAX, over_limit: AtomicBool::new(false),
            fifo_open: AtomicU64::new(0),
            worker_calls: AtomicU64::new(0),
            order: AtomicU64::new(0),
            clock: None, stats: None, clock_base: [0; 2],
            clock_ns: AtomicU64::new(0), clock_reads: AtomicU64::new(0),
            env: mix(ENV.fetch_add(1, SeqCst)) | 1, env_reads: AtomicU64::new(0),
        }
    }
    /// Use a clock of its own
    pub fn own_clock(&mut self, seed: u64, step_ns: u64) {
        let by = Bypass::new();
        for (i, c) in [libc::CLOCK_REALTIME, libc::CLOCK_MONOTONIC].iter().enumerate() {
            let mut t: libc::timespec = unsafe { std::mem::zeroed() };
            unsafe { libc::clock_gettime(*c, &mut t); }
            self.clock_base[i] = t.tv_sec * 1_000_000_000 + t.tv_nsec;
        }
        self.clock = Some((seed, step_ns));
        drop(by);
    }
    /// nanoseconds that have passed on that clock
    pub fn clock_now(&self) -> u64 { self.clock_ns.load(SeqCst) }
    pub fn logged() -> Sess {
        let mut s = Sess::new();
        s.log = Some(Mutex::new(Vec::new()));
        s
    }
    pub fn total(&self) -> u64 { self.seq.load(SeqCst) }
    pub fn count(&self, k: K) -> u64 { self.counts[k as usize].load(SeqCst) }
    pub fn take_log(&self) -> Vec<Ev> {
        match self.log { Some(ref l) => std::mem::take(&mut *l.lock().unwrap()), None => Vec::new() }
    }
}

thread_local! {
    static BYPASS: Cell<bool> = const { Cell::new(false) };
    static IS_MAIN: Cell<bool> = const { Cell::new(false) };
}
static ARMED: AtomicBool = AtomicBool::new(false);
static SESS: AtomicPtr<Sess> = AtomicPtr::new(std::ptr::null_mut());
static INFLIGHT: AtomicUsize = AtomicUsize::new(0);

pub fn bypassed() -> bool { BYPASS.try_with(|b| b.get()).unwrap_or(true) }

pub struct Bypass(bool);
impl Bypass {
    pub fn new() -> Bypass {
        Bypass(BYPASS.try_with(|b| b.replace(true)).unwrap_or(true))
    }
}
impl Drop for Bypass {
    fn drop(&mut self) { let v = self.0; let _ = BYPASS.try_with(|b| b.set(v)); }
}

/// Run `f` with the session armed. Returns when no call is in flight.
pub fn with<T>(sess: &Sess, f: impl FnOnce() -> T) -> std::thread::Result<T> {
    IS_MAIN.with(|m| m.set(true));
    SESS.store(sess as *const Sess as *mut Sess, SeqCst);
    ARMED.store(true, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    // let the threads of the scan finish what they are doing
    let by = Bypass::new();
    wait_threads();
    ARMED.store(false, SeqCst);
    while INFLIGHT.load(SeqCst) != 0 { std::thread::yield_now(); }
    SESS.store(std::ptr::null_mut(), SeqCst);
    drop(by);
    r
}

pub static BASE_THREADS: AtomicUsize = AtomicUsize::new(1);

pub fn thread_count() -> usize {
    // a listing of /proc/self/task misses threads when others end meanwhile
    let by = Bypass::new();
    let n = std::fs::read_to_string("/proc/self/stat").ok()
        .and_then(|s| s[s.rfind(')')? + 1..].split_whitespace().nth(17)?.parse().ok())
        .expect("harness: /proc/self/stat");
    drop(by);
    n
}

/// Wait until only the harness threads are left; returns how many more there are
pub fn wait_threads() -> usize {
    let base = BASE_THREADS.load(SeqCst);
    let start = std::time::Instant::now();
    let mut n = 0;
    loop {
        let c = thread_count();
        if c <= base { return 0; }
        n += 1;
        if n < 50 { std::thread::yield_now(); }
        else { std::thread::sleep(std::time::Duration::from_micros(200)); }
        if start.elapsed().as_secs() >= 20 { return c - base; }
    }
}

fn real(slot: &AtomicUsize, name: &'static CStr) -> usize {
    let p = slot.load(SeqCst);
    if p != 0 { return p; }
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) } as usize;
    if p == 0 { unsafe { libc::abort() } }
    slot.store(p, SeqCst);
    p
}

fn errno() -> i32 { unsafe { *libc::__errno_location() } }
fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e } }

struct Flight(&'static Sess);
impl Drop for Flight {
    fn drop(&mut self) { INFLIGHT.fetch_sub(1, SeqCst); }
}

fn enter() -> Option<Flight> {
    if !ARMED.load(SeqCst) || bypassed() { return None; }
    INFLIGHT.fetch_add(1, SeqCst);
    if !ARMED.load(SeqCst) {
        INFLIGHT.fetch_sub(1, SeqCst);
        return None;
    }
    let p = SESS.load(SeqCst);
    Some(Flight(unsafe { &*p }))
}

impl Flight {
    fn pre(&self, k: K, f: &'static str, fd: i64, name: &[u8], flags: i32, len: usize) -> (Call, Act) {
        let _by = Bypass::new();
        let s = self.0;
        let seq = s.seq.fetch_add(1, SeqCst);
        s.counts[k as usize].fetch_add(1, SeqCst);
        let main = IS_MAIN.try_with(|m| m.get()).unwrap_or(false);
        if !main {
            s.worker_calls.fetch_add(1, SeqCst);
        }
        let call = Call { seq, k, f, main, fd, name: name.to_vec(), flags, len };
        if seq >= s.calls_limit {
            s.over_limit.store(true, SeqCst);
            return (call, Act::Fail(libc::EDEADLK));
        }
        if s.jitter != 0 {
            let r = mix(s.jitter ^ mix(seq) ^ (main as u64));
            match r % 16 {
                0..=5 => {}
                6..=10 => std::thread::yield_now(),
                11..=14 => { for _ in 0..(r >> 8) % 2000 { std::hint::spin_loop(); } }
                _ => std::thread::sleep(std::time::Duration::from_micros((r >> 8) % 300)),
            }
        }
        let mut act = match s.pre { Some(ref h) => h(s, &call), None => Act::Pass };
        if act == Act::Pass && k == K::Read {
            if s.eintr != 0 && mix(s.short ^ mix(seq) ^ 77) % 256 < s.eintr {
                act = Act::Fail(libc::EINTR);
            } else if s.short != 0 && len > 1 {
                let r = mix(s.short ^ mix(seq));
                act = match r % 4 {
                    0 => Act::Pass,
                    1 => Act::Short(1),
                    2 => Act::Short(1 + (r >> 8) as usize % len),
                    _ => Act::Short(1 + (r >> 8) as usize % len.min(64)),
                };
            }
        }
        if act != Act::Pass { s.injected.fetch_add(1, SeqCst); }
        (call, act)
    }
    fn post(&self, call: Call, ret: i64, err: i32) {
        let _by = Bypass::new();
        let call = call; // dropped before _by
        let s = self.0;
        if s.log.is_none() && s.post.is_none() { return; }
        let mut path = Vec::new();
        let mut ftype = 0;
        if s.resolve && call.k == K::Open && ret >= 0 {
            path = fd_path(ret as i32);
            ftype = fd_type(ret as i32);
        }
        let ev = Ev { call, ret, err: if ret < 0 { err } else { 0 }, path, ftype };
        if let Some(ref h) = s.post { h(s, &ev); }
        if let Some(ref l) = s.log { l.lock().unwrap().push(ev); }
    }
}

pub fn fd_path(fd: i32) -> Vec<u8> {
    let _by = Bypass::new();
    use std::os::unix::ffi::OsStrExt;
    std::fs::read_link(format!("/proc/self/fd/{}", fd))
        .map(|p| p.as_os_str().as_bytes().to_vec()).unwrap_or_default()
}

pub fn fd_type(fd: i32) -> u32 {
    let _by = Bypass::new();
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    if unsafe { raw_fstatat(fd, c"".as_ptr(), &mut st, libc::AT_EMPTY_PATH) } == 0 {
        st.st_mode & libc::S_IFMT
    } else { 0 }
}

unsafe fn raw_fstatat(fd: c_int, p: *const c_char, st: *mut libc::stat, flags: c_int) -> c_int {
    libc::syscall(libc::SYS_newfstatat, fd, p, st, flags) as c_int
}

unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    if p.is_null() { b"" } else { CStr::from_ptr(p).to_bytes() }
}

type OpenFn = unsafe extern "C" fn(*const c_char, c_int, c_int) -> c_int;
type OpenatFn = unsafe extern "C" fn(c_int, *const c_char, c_int, c_int) -> c_int;

unsafe fn do_open(f: &'static str, dirfd: c_int, path: *const c_char, flags: c_int,
    go: impl FnOnce() -> c_int) -> c_int
{
    let fl = match enter() { Some(x) => x, None => return go() };
    let saved = errno();
    let (call, act) = fl.pre(K::Open, f, dirfd as i64, cstr(path), flags, 0);
    if let Act::Fail(e) = act {
        fl.post(call, -1, e);
        set_errno(e);
        return -1;
    }
    if flags & (libc::O_PATH | libc::O_NONBLOCK | libc::O_DIRECTORY) == 0 {
        // would this open block (or be an open of a pipe or a device)?
        let mut st: libc::stat = std::mem::zeroed();
        let nf = if flags & libc::O_NOFOLLOW != 0 { libc::AT_SYMLINK_NOFOLLOW } else { 0 };
        if raw_fstatat(dirfd, path, &mut st, nf) == 0
            && st.st_mode & libc::S_IFMT == libc::S_IFIFO
        {
            fl.0.fifo_open.fetch_add(1, SeqCst);
            fl.post(call, -1, libc::ENXIO);
            set_errno(libc::ENXIO);
            return -1;
        }
    }
    set_errno(saved);
    let r = go();
    let e = errno();
    fl.post(call, r as i64, e);
    set_errno(e);
    r
}

macro_rules! slot { ($name:expr) => {{
    static S: AtomicUsize = AtomicUsize::new(0);
    real(&S, $name)
}}}

#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let r: OpenFn = std::mem::transmute(slot!(c"open"));
    do_open("open", libc::AT_FDCWD, p, flags, || r(p, flags, mode))
}
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let r: OpenFn = std::mem::transmute(slot!(c"open64"));
    do_open("open64", libc::AT_FDCWD, p, flags, || r(p, flags, mode))
}
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let r: OpenatFn = std::mem::transmute(slot!(c"openat"));
    do_open("openat", d, p, flags, || r(d, p, flags, mode))
}
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let r: OpenatFn = std::mem::transmute(slot!(c"openat64"));
    do_open("openat64", d, p, flags, || r(d, p, flags, mode))
}

/// call with an int-like result
unsafe fn simple(k: K, f: &'static str, fd: i64, name: &[u8], flags: i32,
    go: impl FnOnce() -> i64) -> i64
{
    let fl = match enter() { Some(x) => x, None => return go() };
    let saved = errno();
    let (call, act) = fl.pre(k, f, fd, name, flags, 0);
    if let Act::Fail(e) = act {
        fl.post(call, -1, e);
        set_errno(e);
        return -1;
    }
    set_errno(saved);
    let r = go();
    let e = errno();
    fl.post(call, r, e);
    set_errno(e);
    r
}

#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let r: unsafe extern "C" fn(c_int) -> c_int = std::mem::transmute(slot!(c"close"));
    // a close is never failed: log only
    let fl = match enter() { Some(x) => x, None => return r(fd) };
    let saved = errno();
    let (call, _) = fl.pre(K::Close, "close", fd as i64, b"", 0, 0);
    set_errno(saved);
    let x = r(fd);
    let e = errno();
    fl.post(call, x as i64, e);
    set_errno(e);
    x
}

unsafe fn do_read(f: &'static str, fd: c_int, n: usize, go: impl FnOnce(usize) -> isize) -> isize {
    let fl = match enter() { Some(x) => x, None => return go(n) };
    let saved = errno();
    let (call, act) = fl.pre(K::Read, f, fd as i64, b"", 0, n);
    let n = match act {
        Act::Fail(e) => {
            fl.post(call, -1, e);
            set_errno(e);
            return -1;
        }
        Act::Short(m) => m.min(n),
        Act::Pass => n,
    };
    set_errno(saved);
    let r = go(n);
    let e = errno();
    fl.post(call, r as i64, e);
    set_errno(e);
    r
}

#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let r: unsafe extern "C" fn(c_int, *mut c_void, usize) -> isize = std::mem::transmute(slot!(c"read"));
    do_read("read", fd, n, |n| r(fd, buf, n))
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    let r: unsafe extern "C" fn(c_int, *mut c_void, usize, i64) -> isize = std::mem::transmute(slot!(c"pread64"));
    do_read("pread64", fd, n, |n| r(fd, buf, n, off))
}
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    let r: unsafe extern "C" fn(c_int, *const libc::iovec, c_int) -> isize = std::mem::transmute(slot!(c"readv"));
    do_read("readv", fd, 0, |_| r(fd, iov, cnt))
}

#[no_mangle] pub unsafe extern "C" fn readlinkat(d: c_int, p: *const c_char, buf: *mut c_char, n: usize) -> isize {
    let r: unsafe extern "C" fn(c_int, *const c_char, *mut c_char, usize) -> isize =
        std::mem::transmute(slot!(c"readlinkat"));
    simple(K::ReadLink, "readlinkat", d as i64, cstr(p), 0, || r(d, p, buf, n) as i64) as isize
}
#[no_mangle] pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: usize) -> isize {
    let r: unsafe extern "C" fn(*const c_char, *mut c_char, usize) -> isize =
        std::mem::transmute(slot!(c"readlink"));
    simple(K::ReadLink, "readlink", libc::AT_FDCWD as i64, cstr(p), 0, || r(p, buf, n) as i64) as isize
}

macro_rules! stat_at { ($($name:ident $cname:literal $s:literal),*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $name(d: c_int, p: *const c_char, st: *mut c_void, flags: c_int) -> c_int {
        let r: unsafe extern "C" fn(c_int, *const c_char, *mut c_void, c_int) -> c_int =
            std::mem::transmute(slot!($cname));
        odd_stat(simple(K::Stat, $s, d as i64, cstr(p), flags, || r(d, p, st, flags) as i64) as c_int, st)
    }
)* } }
stat_at!(fstatat c"fstatat" "fstatat", fstatat64 c"fstatat64" "fstatat64");

macro_rules! stat_fd { ($($name:ident $cname:literal $s:literal),*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $name(fd: c_int, st: *mut c_void) -> c_int {
        let r: unsafe extern "C" fn(c_int, *mut c_void) -> c_int = std::mem::transmute(slot!($cname));
        odd_stat(simple(K::Stat, $s, fd as i64, b"", libc::AT_EMPTY_PATH, || r(fd, st) as i64) as c_int, st)
    }
)* } }
stat_fd!(fstat c"fstat" "fstat", fstat64 c"fstat64" "fstat64");

macro_rules! stat_path { ($($name:ident $cname:literal $s:literal),*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $name(p: *const c_char, st: *mut c_void) -> c_int {
        let r: unsafe extern "C" fn(*const c_char, *mut c_void) -> c_int = std::mem::transmute(slot!($cname));
        odd_stat(simple(K::Stat, $s, libc::AT_FDCWD as i64, cstr(p), 0, || r(p, st) as i64) as c_int, st)
    }
)* } }
stat_path!(stat c"stat" "stat", stat64 c"stat64" "stat64", lstat c"lstat" "lstat", lstat64 c"lstat64" "lstat64");

#[no_mangle] pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: u32, st: *mut c_void) -> c_int {
    let r: unsafe extern "C" fn(c_int, *const c_char, c_int, u32, *mut c_void) -> c_int =
        std::mem::transmute(slot!(c"statx"));
    let x = simple(K::Stat, "statx", d as i64, cstr(p), flags, || r(d, p, flags, mask, st) as i64) as c_int;
    if x == 0 {
        if let Some(o) = odd() {
            let st = &mut *(st as *mut libc::statx);
            let o = o.of(st.stx_ino);
            st.stx_ino = o.ino;
            st.stx_nlink = o.nlink as u32;
            st.stx_blocks = o.blocks.unwrap_or(st.stx_blocks);
            st.stx_blksize = o.blksize as u32;
            st.stx_uid = o.owner;
            st.stx_gid = o.owner;
            st.stx_dev_major = 0;
            st.stx_dev_minor = o.dev as u32;
            for t in [&mut st.stx_atime, &mut st.stx_mtime, &mut st.stx_ctime, &mut st.stx_btime] { t.tv_sec = o.time; t.tv_nsec = 0; }
            if st.stx_mode as u32 & libc::S_IFMT != libc::S_IFREG { st.stx_size = o.size; }
        }
    }
    x
}

/// What a file system may well say of its files, none of which is in an index
struct Odd(u64);
struct OddStat { ino: u64, nlink: u64, blocks: Option<u64>, blksize: u64, owner: u32, dev: u64, time: i64, size: u64 }
fn odd() -> Option<Odd> {
    let fl = enter()?;
    fl.0.stats.map(|s| Odd(mix(s)))
}
impl Odd {
    fn of(&self, ino: u64) -> OddStat {
        let x = self.0;
        let each = mix(x ^ ino);
        OddStat {
            ino: [1, 1, u64::MAX, 2 + each % 2, ino][(x % 5) as usize],
            nlink: [0, 1, 1, 2, 3][(x >> 4) as usize % 5],
            blocks: [Some(0), Some(0), Some(1 << 40), None][(x >> 8) as usize % 4],
            blksize: [0, 1, 512, 4096, 1 << 20, 1 << 24][(x >> 12) as usize % 6],
            owner: [0, 1000, u32::MAX][(x >> 16) as usize % 3],
            dev: [0, 1, each % 2, each % 100][(x >> 20) as usize % 4],
            time: [0, 1, -1, i32::MAX as i64 + 1, 4_000_000_000, 1_000_000_000][(x >> 24) as usize % 6],
            size: [0, 0, 1, 4096, 1 << 20][(x >> 28) as usize % 5],
        }
    }
}

unsafe fn odd_stat(r: c_int, st: *mut c_void) -> c_int {
    if r == 0 {
        if let Some(o) = odd() {
            let st = &mut *(st as *mut libc::stat);
            let o = o.of(st.st_ino);
            st.st_ino = o.ino;
            st.st_nlink = o.nlink;
            st.st_blocks = o.blocks.unwrap_or(st.st_blocks as u64) as i64;
            st.st_blksize = o.blksize as i64;
            st.st_uid = o.owner;
            st.st_gid = o.owner;
            st.st_dev = o.dev;
            st.st_atime = o.time;
            st.st_mtime = o.time;
            st.st_ctime = o.time;
            if st.st_mode & libc::S_IFMT != libc::S_IFREG { st.st_size = o.size as i64; }
        }
    }
    r
}

#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut libc::timespec) -> c_int {
    let r: unsafe extern "C" fn(c_int, *mut libc::timespec) -> c_int = std::mem::transmute(slot!(c"clock_gettime"));
    let which = match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => 0,
        libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => 1,
        _ => return r(id, t),
    };
    let fl = match enter() { Some(x) => x, None => return r(id, t) };
    let s = fl.0;
    let (seed, step) = match s.clock { Some(x) => x, None => { drop(fl); return r(id, t); } };
    let n = s.clock_reads.fetch_add(1, SeqCst);
    let by = match step { 0 => 0, st => {
        let x = mix(seed ^ mix(n));
        match x % 8 { 0 | 1 => 0, 2 => st.min(100_000_000), 3 => st.min(100_000_001), 4 => st / 100, _ => (x >> 8) % (st + 1) }
    } };
    let now = s.clock_base[which] + (s.clock_ns.fetch_add(by, SeqCst) + by) as i64;
    (*t).tv_sec = now / 1_000_000_000;
    (*t).tv_nsec = now % 1_000_000_000;
    0
}

// ---- environment, terminal and user ------------------------------------
// A scan that asks for any of these is told something else every time.

fn told(what: &[u8]) -> Option<u64> {
    let fl = enter()?;
    let s = fl.0;
    if s.env == 0 { return None; }
    s.env_reads.fetch_add(1, SeqCst);
    Some(mix(s.env ^ crate::rng::hash_bytes(what)))
}

fn variable(name: &[u8]) -> Option<*mut c_char> {
    // those of the runtime are real
    for p in [&b"RUST"[..], b"LD_", b"MALLOC_", b"GLIBC_", b"ASAN_", b"TSAN_"] { if name.starts_with(p) { return None; } }
    const VALUES: [&CStr; 15] = [c"", c"0", c"1", c"2", c"15", c"40", c"100", c"dumb", c"C", c"en_US.UTF-8", c"yes", c"true", c"never", c"/nonexistent", c"1700000000"];
    let h = told(name)?;
    Some(match (h % 18) as usize { i if i < 15 => VALUES[i].as_ptr() as *mut c_char, _ => std::ptr::null_mut() })
}

#[no_mangle] pub unsafe extern "C" fn getenv(n: *const c_char) -> *mut c_char {
    let r: unsafe extern "C" fn(*const c_char) -> *mut c_char = std::mem::transmute(slot!(c"getenv"));
    match variable(CStr::from_ptr(n).to_bytes()) { Some(v) => v, None => r(n) }
}
#[no_mangle] pub unsafe extern "C" fn secure_getenv(n: *const c_char) -> *mut c_char { getenv(n) }
#[no_mangle] pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    let r: unsafe extern "C" fn(c_int) -> c_int = std::mem::transmute(slot!(c"isatty"));
    match told(b"isatty") { Some(h) => (h & 1) as c_int, None => r(fd) }
}
#[no_mangle] pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_void) -> c_int {
    let r: unsafe extern "C" fn(c_int, libc::c_ulong, *mut c_void) -> c_int = std::mem::transmute(slot!(c"ioctl"));
    if req == libc::TIOCGWINSZ {
        if let Some(h) = told(b"window") {
            let w = &mut *(arg as *mut libc::winsize);
            w.ws_col = [0, 1, 15, 40, 80, 65535][(h % 6) as usize];
            w.ws_row = [0, 1, 24, 65535][((h >> 8) % 4) as usize];
            return 0;
        }
    }
    r(fd, req, arg)
}
macro_rules! ids { ($($name:ident),*) => { $(
#[no_mangle] pub unsafe extern "C" fn $name() -> u32 {
    let name = concat!(stringify!($name), "\0");
    let r: unsafe extern "C" fn() -> u32 = std::mem::transmute(slot!(CStr::from_bytes_with_nul_unchecked(name.as_bytes())));
    match told(b"user") { Some(h) if h & 1 == 0 => [1000, 65534, 0][(h % 3) as usize], _ => r() }
}
)* } }
ids!(getuid, geteuid, getgid, getegid);

// ---- directory streams -------------------------------------------------

struct Stream { entries: Vec<Vec<u8>>, pos: usize }
static STREAMS: Mutex<Option<HashMap<usize, Stream>>> = Mutex::new(None);

#[no_mangle] pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    let r: unsafe extern "C" fn(c_int) -> *mut c_void = std::mem::transmute(slot!(c"fdopendir"));
    let p = simple(K::FdOpenDir, "fdopendir", fd as i64, b"", 0, || {
        let p = r(fd);
        if p.is_null() { -1 } else { p as i64 }
    });
    if p == -1 { std::ptr::null_mut() } else { p as usize as *mut c_void }
}

#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let r: unsafe extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(slot!(c"opendir"));
    let fl = match enter() { Some(x) => x, None => return r(p) };
    let saved = errno();
    let (call, act) = fl.pre(K::Open, "opendir", libc::AT_FDCWD as i64, cstr(p), libc::O_DIRECTORY, 0);
    if let Act::Fail(e) = act {
        fl.post(call, -1, e);
        set_errno(e);
        return std::ptr::null_mut();
    }
    set_errno(saved);
    let d = r(p);
    let e = errno();
    let fd = if d.is_null() { -1 } else { libc::dirfd(d as *mut libc::DIR) };
    fl.post(call, fd as i64, e);
    set_errno(e);
    d
}

unsafe fn do_readdir(f: &'static str, d: *mut c_void, r: unsafe extern "C" fn(*mut c_void) -> *mut c_void) -> *mut c_void {
    let fl = match enter() { Some(x) => x, None => return r(d) };
    let saved = errno();
    let (call, act) = fl.pre(K::ReadDir, f, d as i64, b"", 0, 0);
    if let Act::Fail(e) = act {
        fl.post(call, -1, e);
        set_errno(e);
        return std::ptr::null_mut();
    }
    let s = fl.0;
    if s.shuffle.is_none() && s.dtype == Dtype::Keep {
        set_errno(saved);
        let p = r(d);
        let e = errno();
        let mut call = call;
        let _by = Bypass::new();
        if !p.is_null() { call.name = cstr((*(p as *const libc::dirent)).d_name.as_ptr()).to_vec(); }
        fl.post(call, if p.is_null() { 0 } else { 1 }, e);
        set_errno(e);
        return p;
    }
    let by = Bypass::new();
    let mut g = STREAMS.lock().unwrap();
    let map = g.get_or_insert_with(HashMap::new);
    if !map.contains_key(&(d as usize)) {
        let mut entries = Vec::new();
        loop {
            set_errno(0);
            let p = r(d) as *const libc::dirent;
            if p.is_null() {
                let e = errno();
                if e != 0 {
                    drop(g); drop(by);
                    fl.post(call, -1, e);
                    set_errno(e);
                    return std::ptr::null_mut();
                }
                break;
            }
            let n = (*p).d_reclen as usize;
            let odd = s.stats.map(|x| Odd(mix(x)).of((*p).d_ino));
            let mut v = vec![0u8; n.max(std::mem::size_of::<libc::dirent>())];
            std::ptr::copy_nonoverlapping(p as *const u8, v.as_mut_ptr(), n);
            let de = v.as_mut_ptr() as *mut libc::dirent;
            if let Some(o) = odd { (*de).d_ino = o.ino; (*de).d_off = 0; }
            match s.dtype {
                Dtype::Keep => {}
                Dtype::Unknown => (*de).d_type = libc::DT_UNKNOWN,
                Dtype::Mixed => if mix(s.shuffle.unwrap_or(1) ^ (*p).d_ino) & 1 == 0 {
                    (*de).d_type = libc::DT_UNKNOWN;
                },
            }
            entries.push(v);
        }
        if let Some(seed) = s.shuffle {
            // the seed mixes the order of streams in
            let o = s.order.fetch_add(1, SeqCst);
            let mut rng = Rng::new(seed ^ mix(o));
            rng.shuffle(&mut entries);
        }
        map.insert(d as usize, Stream { entries, pos: 0 });
    }
    let st = map.get_mut(&(d as usize)).unwrap();
    let p: *mut c_void = if st.pos < st.entries.len() {
        st.pos += 1;
        st.entries[st.pos - 1].as_mut_ptr() as *mut c_void
    } else { std::ptr::null_mut() };
    drop(g); drop(by);
    let mut call = call;
    if !p.is_null() {
        let _by = Bypass::new();
        call.name = cstr((*(p as *const libc::dirent)).d_name.as_ptr()).to_vec();
    }
    fl.post(call, if p.is_null() { 0 } else { 1 }, 0);
    set_errno(saved);
    p
}

#[no_mangle] pub unsafe extern "C" fn readdir(d: *mut c_void) -> *mut c_void {
    let r: unsafe extern "C" fn(*mut c_void) -> *mut c_void = std::mem::transmute(slot!(c"readdir"));
    do_readdir("readdir", d, r)
}
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    let r: unsafe extern "C" fn(*mut c_void) -> *mut c_void = std::mem::transmute(slot!(c"readdir64"));
    do_readdir("readdir64", d, r)
}
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let r: unsafe extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(slot!(c"closedir"));
    if let Some(fl) = enter() {
        let saved = errno();
        let fd = libc::dirfd(d as *mut libc::DIR);
        {
            let _by = Bypass::new();
            if let Some(ref mut m) = *STREAMS.lock().unwrap() { m.remove(&(d as usize)); }
        }
        let (call, _) = fl.pre(K::CloseDir, "closedir", fd as i64, b"", 0, 0);
        set_errno(saved);
        let x = r(d);
        let e = errno();
        fl.post(call, x as i64, e);
        set_errno(e);
        return x;
    }
    r(d)
}

// ---- calls that change the file system: logged, never expected ---------

macro_rules! mutate_p { ($($name:ident $c:literal $s:literal ($($a:ident : $t:ty),*) [$d:expr, $p:expr]),* $(,)?) => { $(
    #[no_mangle] pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
        let r: unsafe extern "C" fn($($t),*) -> c_int = std::mem::transmute(slot!($c));
        simple(K::Mutate, $s, $d as i64, cstr($p), 0, || r($($a),*) as i64) as c_int
    }
)* } }
mutate_p! {
    unlink c"unlink" "unlink" (p: *const c_char) [libc::AT_FDCWD, p],
    unlinkat c"unlinkat" "unlinkat" (d: c_int, p: *const c_char, f: c_int) [d, p],
    rmdir c"rmdir" "rmdir" (p: *const c_char) [libc::AT_FDCWD, p],
    mkdir c"mkdir" "mkdir" (p: *const c_char, m: u32) [libc::AT_FDCWD, p],
    mkdirat c"mkdirat" "mkdirat" (d: c_int, p: *const c_char, m: u32) [d, p],
    rename c"rename" "rename" (p: *const c_char, q: *const c_char) [libc::AT_FDCWD, p],
    renameat c"renameat" "renameat" (d: c_int, p: *const c_char, e: c_int, q: *const c_char) [d, p],
    symlink c"symlink" "symlink" (p: *const c_char, q: *const c_char) [libc::AT_FDCWD, q],
    symlinkat c"symlinkat" "symlinkat" (p: *const c_char, d: c_int, q: *const c_char) [d, q],
    chmod c"chmod" "chmod" (p: *const c_char, m: u32) [libc::AT_FDCWD, p],
    fchmodat c"fchmodat" "fchmodat" (d: c_int, p: *const c_char, m: u32, f: c_int) [d, p],
    truncate64 c"truncate64" "truncate64" (p: *const c_char, m: i64) [libc::AT_FDCWD, p],
    utimensat c"utimensat" "utimensat" (d: c_int, p: *const c_char, t: *const c_void, f: c_int) [d, p],
}
macro_rules! mutate_fd { ($($name:ident $c:literal $s:literal ($fd:ident: c_int $(, $a:ident : $t:ty)*)),* $(,)?) => { $(
    #[no_mangle] pub unsafe extern "C" fn $name($fd: c_int $(, $a: $t)*) -> c_int {
        let r: unsafe extern "C" fn(c_int $(, $t)*) -> c_int = std::mem::transmute(slot!($c));
        simple(K::Mutate, $s, $fd as i64, b"", 0, || r($fd $(, $a)*) as i64) as c_int
    }
)* } }
mutate_fd! {
    fchmod c"fchmod" "fchmod" (fd: c_int, m: u32),
    ftruncate64 c"ftruncate64" "ftruncate64" (fd: c_int, m: i64),
    futimens c"futimens" "futimens" (fd: c_int, t: *const c_void),
}
