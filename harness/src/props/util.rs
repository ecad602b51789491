//! Shared by the properties about scans.
use std::path::{Path, PathBuf};

use dir_signature::v1::{self, Error};
use dir_signature::ScannerConfig;

use crate::ctx::{Ctx, Violation};
use crate::gen::{self, Knobs};
use crate::io::{Chunk, Sink};
use crate::model::{Dir, Merged, Node, H, ALL_H};
use crate::rng::Rng;
use crate::shim::{self, Dtype, Sess};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub h: H,
    pub threads: usize,
    pub queue: Option<usize>,
    pub progress: bool,
}

impl Cfg {
    pub fn threaded(&self) -> bool { cfg!(feature = "threads") && self.threads > 1 }
    pub fn describe(&self) -> String {
        format!("{} threads={} queue={:?} progress={}", self.h.name(), self.threads, self.queue, self.progress)
    }
}

pub fn cfg(rng: &mut Rng) -> Cfg {
    Cfg {
        h: *rng.pick(&ALL_H),
        threads: *rng.pick(&[0usize, 0, 1, 2, 2, 3, 4, 8, 17]),
        queue: *rng.pick(&[None, None, Some(0), Some(1), Some(2), Some(3), Some(10), Some(1000)]),
        progress: rng.chance(1, 3),
    }
}

pub fn config(c: &Cfg, roots: &[(PathBuf, PathBuf)]) -> ScannerConfig {
    let mut s = ScannerConfig::new();
    s.hash(c.h.ht());
    s.threads(c.threads);
    if let Some(q) = c.queue { s.queue_size(q); }
    for (p, pre) in roots { s.add_dir(p, pre); }
    if c.progress { s.print_progress(); }
    s
}

/// Scan with the session armed; a panic is a violation
pub fn scan(cx: &mut Ctx, c: &Cfg, roots: &[(PathBuf, PathBuf)], sink: &mut Sink, sess: &Sess)
    -> Result<Result<(), Error>, Violation>
{
    let conf = config(c, roots);
    let r = shim::with(sess, || v1::scan(&conf, sink));
    cx.eval();
    cx.count("libc calls of the scan seen", sess.total());
    cx.count("of them by worker threads", sess.worker_calls.load(std::sync::atomic::Ordering::SeqCst));
    cx.count("calls with injected faults or short reads", sess.injected.load(std::sync::atomic::Ordering::SeqCst));
    cx.count("questions about environment, terminal or user", sess.env_reads.load(std::sync::atomic::Ordering::SeqCst));
    match r {
        Ok(r) => Ok(r),
        Err(_) => {
            let m = crate::runner::LAST_PANIC.lock().unwrap().clone();
            crate::ctx::vio(format!("the scan panics: {} ({})", m, c.describe()))
        }
    }
}

pub fn scan_ok(cx: &mut Ctx, c: &Cfg, roots: &[(PathBuf, PathBuf)], sess: &Sess) -> Result<Vec<u8>, Violation> {
    let mut s = Sink::plain();
    match scan(cx, c, roots, &mut s, sess)? {
        Ok(()) => Ok(s.data),
        Err(e) => crate::ctx::vio(format!("scan of a readable tree fails: {} ({})", e, c.describe())),
    }
}

/// Session with random but harmless conditions: listing order, entry types,
/// delays; reads cut short and interrupted if `reads`
pub fn conditions(rng: &mut Rng, reads: bool) -> Sess {
    let mut s = Sess::new();
    if rng.chance(2, 3) { s.shuffle = Some(rng.next()); }
    s.dtype = *rng.pick(&[Dtype::Keep, Dtype::Keep, Dtype::Unknown, Dtype::Mixed]);
    if rng.chance(1, 2) { s.jitter = rng.next() | 1; }
    if rng.chance(1, 3) { s.stats = Some(rng.next()); }
    if reads && rng.chance(1, 2) {
        s.short = rng.next() | 1;
        if rng.chance(1, 2) { s.eintr = 40; }
    }
    s
}

pub fn knobs(rng: &mut Rng) -> Knobs {
    Knobs {
        nodes: *rng.pick(&[1usize, 3, 8, 20, 40, 80]),
        max_depth: *rng.pick(&[1usize, 2, 4, 8, 20]),
        odd: *rng.pick(&[0u64, 30, 60, 100]),
        max_file: *rng.pick(&[0usize, 200, 5000, 70_000, 400_000]),
        files_pct: *rng.pick(&[20u64, 50, 80]),
        dirs_pct: *rng.pick(&[10u64, 30, 60]),
        links_pct: *rng.pick(&[5u64, 20]),
        other_pct: *rng.pick(&[0u64, 5, 15]),
        hard: true,
        modes: true,
    }
}

pub struct Forest {
    pub trees: Vec<Dir>,
    pub roots: Vec<(PathBuf, PathBuf)>,
    pub merged: Merged,
}

pub fn put(cx: &mut Ctx, trees: Vec<Dir>) -> Forest {
    let mut roots = Vec::new();
    for t in &trees {
        let p = cx.dir();
        let mut r = cx.rng.fork(9);
        gen::materialise(&p, t, &mut r);
        roots.push((p, PathBuf::from("/")));
    }
    let merged = gen::merged(&trees);
    Forest { trees, roots, merged }
}

pub fn forest(cx: &mut Ctx, k: &Knobs, max_roots: usize) -> Forest {
    let mut rng = cx.rng.fork(1);
    let n = if max_roots > 1 && rng.chance(1, 4) { rng.range(2, max_roots as u64) as usize } else { 1 };
    let first = gen::tree(&mut rng, k);
    let mut trees = vec![first];
    while trees.len() < n {
        // now and then the same again
        let t = if rng.chance(1, 8) { trees[0].clone() } else { gen::overlapping(&mut rng, &trees[0], k) };
        trees.push(t);
    }
    put(cx, trees)
}

/// Trees that are not reached by sampling
pub const SPECIALS: u64 = 16;
pub fn special(i: u64, rng: &mut Rng) -> Option<(String, Vec<Dir>)> {
    let f = |data: Vec<u8>, mode: u32| Node::File { data: std::rc::Rc::new(data), mode, hard: 0 };
    let one = |name: &str, d: Dir| Some((name.to_string(), vec![d]));
    match i {
        0 => one("empty root", Dir::new()),
        1 => {
            let mut d = Dir::new();
            for k in 0..3000u32 {
                let n = format!("{:x}", crate::rng::mix(k as u64) & 0xffffff).into_bytes();
                d.insert(n, match k % 10 { 0 => Node::Link(format!("t{}", k).into_bytes()), 1 => Node::Dir(Dir::new(), 0o755), _ => f(vec![k as u8; (k % 7) as usize], 0o644) });
            }
            one("3000 entries in a directory", d)
        }
        2 => {
            let mut d = Dir::new();
            d.insert(b"bottom".to_vec(), f(b"bottom".to_vec(), 0o755));
            for k in 0..120u32 {
                let mut up = Dir::new();
                let mut n = format!("{}-", k).into_bytes();
                n.resize(rng.range(30, 200) as usize, b'd');
                up.insert(n, Node::Dir(d, 0o755));
                if k % 3 == 0 { up.insert(b"zz".to_vec(), f(vec![1, 2, 3], 0o644)); }
                if k % 5 == 0 { up.insert(b"a link".to_vec(), Node::Link(b"..".to_vec())); }
                d = up;
            }
            one("120 levels, paths longer than PATH_MAX", d)
        }
        3 => {
            let mut d = Dir::new();
            for b in 1..=255u8 { if b != b'/' && b != b'.' { d.insert(vec![b], f(vec![b], 0o644)); } }
            let mut s = Dir::new();
            for b in 1..=255u8 { if b != b'/' && b != b'.' { s.insert(vec![b], Node::Dir(Dir::new(), 0o755)); } }
            let mut l = Dir::new();
            for b in 1..=255u8 { if b != b'/' { l.insert(vec![b'l', b], Node::Link(vec![b'x', b, b])); } }
            d.insert(b"sub dirs".to_vec(), Node::Dir(s, 0o755));
            d.insert(b"links".to_vec(), Node::Dir(l, 0o755));
            one("every byte in file, directory and link names", d)
        }
        4 => {
            let mut d = Dir::new();
            for a in [0x1f, 0x20, 0x21, 0x2d, 0x2e, 0x30, 0x5b, 0x5c, 0x5d, 0x7e, 0x7f, 0x80, 0xff, 1u8] {
                for b in [0x20, 0x2e, 0x30, 0x5c, b'x', 0xff, 1u8] {
                    let mut s = Dir::new();
                    s.insert(vec![b'a', b], f(vec![a, b], 0o644));
                    d.insert(vec![b'a', a, b], Node::Dir(s.clone(), 0o755));
                    d.insert(vec![b'a', a], Node::Dir(s, 0o755));
                }
            }
            d.insert(b"a".to_vec(), Node::Dir(d.clone(), 0o755));
            one("siblings whose names sort around the slash", d)
        }
        5 => {
            let mut d = Dir::new();
            for n in [1usize, 2, 100, 255, 256, 511, 512, 1000, 1023, 1024, 2000, 4000, 4094, 4095] {
                d.insert(format!("l{}", n).into_bytes(), Node::Link(vec![b'a' + (n % 26) as u8; n]));
                let mut v = rng.bytes(n);
                for c in v.iter_mut() { if *c == 0 { *c = 1; } }
                d.insert(format!("r{}", n).into_bytes(), Node::Link(v));
            }
            one("link targets of all lengths", d)
        }
        6 => {
            let mut d = Dir::new();
            for k in 0..4u32 {
                let mut s = Dir::new();
                for j in 0..5u32 {
                    let n = Node::File { data: std::rc::Rc::new(vec![k as u8; 40_000]), mode: 0o755, hard: k + 1 };
                    s.insert(format!("h{}", j).into_bytes(), n.clone());
                    d.insert(format!("{}h{}", j, k).into_bytes(), n);
                }
                d.insert(format!("dir{}", k).into_bytes(), Node::Dir(s, 0o755));
            }
            one("hard links", d)
        }
        7 => {
            let mut d = Dir::new();
            for m in 0..512u32 { d.insert(format!("{:03o}", m).into_bytes(), f(vec![m as u8; 3], m)); }
            for m in [0o1000u32, 0o2000, 0o4000, 0o7000, 0o1100, 0o2100, 0o4100, 0o7100, 0o7011, 0o4011] {
                d.insert(format!("{:o}", m).into_bytes(), f(vec![7], m));
            }
            one("every permission", d)
        }
        8 => {
            let mut d = Dir::new();
            for k in 0..40u32 {
                let mut s = Dir::new();
                for j in 0..30u32 {
                    let mut t = Dir::new();
                    if j % 3 == 0 { t.insert(b"f".to_vec(), f(vec![j as u8; j as usize], 0o644)); }
                    s.insert(format!("{}", j).into_bytes(), Node::Dir(t, 0o755));
                }
                d.insert(format!("d{}", k).into_bytes(), Node::Dir(s, 0o755));
            }
            one("1240 directories", d)
        }
        9 => {
            let mut d = Dir::new();
            for k in 0..6 { d.insert(format!("p{}", k).into_bytes(), Node::Fifo); d.insert(format!("s{}", k).into_bytes(), Node::Socket); }
            let mut s = Dir::new();
            s.insert(b"only".to_vec(), Node::Fifo);
            d.insert(b"dir".to_vec(), Node::Dir(s, 0o755));
            d.insert(b"q".to_vec(), f(vec![1], 0o644));
            one("pipes and sockets", d)
        }
        10 => {
            // a file, a link and a directory of the same name in three sources
            let mut a = Dir::new(); let mut b = Dir::new(); let mut c = Dir::new();
            for n in [&b"x"[..], b"y", b"z\\", b" "] {
                a.insert(n.to_vec(), f(b"aaa".to_vec(), 0o755));
                b.insert(n.to_vec(), Node::Link(b"bb".to_vec()));
                let mut s = Dir::new();
                s.insert(b"x".to_vec(), f(n.to_vec(), 0o644));
                c.insert(n.to_vec(), Node::Dir(s, 0o755));
            }
            b.insert(b"only-b".to_vec(), Node::Dir(a.clone(), 0o755));
            c.insert(b"only-b".to_vec(), Node::Dir(b.clone(), 0o755));
            Some(("three sources with the same names".into(), vec![a, b, c]))
        }
        11 => {
            let mut d = Dir::new();
            let bs = 32768usize;
            for (i, n) in [0, 1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 7 * bs, 7 * bs + 5, 100 * bs, 100 * bs + 1].iter().enumerate() {
                d.insert(format!("b{}", i).into_bytes(), f(rng.bytes(*n), 0o644));
            }
            one("sizes around multiples of the block size", d)
        }
        12 => {
            let mut d = Dir::new();
            d.insert(b"one".to_vec(), f(rng.bytes(32768 * 1100 + 17), 0o644));
            d.insert(b"two".to_vec(), f(b"two".to_vec(), 0o644));
            one("a file of 1101 blocks", d)
        }
        13 => {
            // many empty and equal files
            let mut d = Dir::new();
            for k in 0..200u32 { d.insert(format!("e{}", k).into_bytes(), f(if k % 2 == 0 { vec![] } else { vec![0; 32768] }, 0o644)); }
            one("equal files", d)
        }
        14 => {
            let mut d = Dir::new();
            for k in 60..110u8 { d.insert(vec![k + 1; 255], Node::Dir({ let mut s = Dir::new(); s.insert(vec![0xff - k; 255], f(vec![k], 0o644)); s }, 0o755)); }
            one("names of 255 bytes", d)
        }
        15 => {
            let mut d = Dir::new();
            let mut sub = Dir::new();
            sub.insert(b"f".to_vec(), f(vec![1; 10], 0o644));
            d.insert(b"real".to_vec(), Node::Dir(sub, 0o755));
            for (n, t) in [("to-dir", "real"), ("to-self", "to-self"), ("up", ".."), ("loop-a", "loop-b"), ("loop-b", "loop-a"), ("root", "/"), ("dangling", "nowhere"), ("to-file", "real/f")] {
                d.insert(n.as_bytes().to_vec(), Node::Link(t.as_bytes().to_vec()));
            }
            one("links to directories, loops and dangling links", d)
        }
        _ => None,
    }
}

/// Trees beyond what counters of 16 bits and fixed limits hold
pub const VAST: u64 = 5;
pub fn vast(i: u64) -> (String, Vec<Dir>) {
    let empty = || Node::File { data: std::rc::Rc::new(Vec::new()), mode: 0o644, hard: 0 };
    let mut d = Dir::new();
    let name = |k: u32| format!("{:x}", crate::rng::mix(k as u64) as u32 as u64 * 70_001 + k as u64).into_bytes();
    match i {
        0 => { for k in 0..65_800 { d.insert(name(k), empty()); } ("65800 files in a directory".into(), vec![d]) }
        1 => { for k in 0..65_800 { d.insert(name(k), Node::Link(vec![b'a' + (k % 26) as u8])); } ("65800 links in a directory".into(), vec![d]) }
        2 => { for k in 0..65_800 { d.insert(name(k), Node::Dir(Dir::new(), 0o755)); } ("65800 directories in a directory".into(), vec![d]) }
        3 => {
            // none of the directories is large
            for k in 0..260u32 {
                let mut s = Dir::new();
                for j in 0..255 { s.insert(name(j), if j % 2 == 0 { empty() } else { Node::Dir(Dir::new(), 0o755) }); }
                s.insert(b"s".to_vec(), Node::Link(name(k)));
                d.insert(name(k), Node::Dir(s, 0o755));
            }
            ("66820 entries in 33280 directories".into(), vec![d])
        }
        _ => {
            d.insert(b"f".to_vec(), empty());
            for k in 0..900u32 {
                let mut up = Dir::new();
                up.insert(vec![b'a' + (k % 26) as u8], Node::Dir(d, 0o755));
                if k % 100 == 0 { up.insert(b"z".to_vec(), Node::Dir(Dir::new(), 0o755)); }
                d = up;
            }
            ("900 levels".into(), vec![d])
        }
    }
}

pub fn fingerprint(m: &Merged, extra: &str) -> u64 {
    let mut h = crate::rng::hash_bytes(extra.as_bytes());
    m.walk(&mut Vec::new(), &mut |p, m| {
        h = crate::rng::mix(h ^ crate::rng::hash_bytes(p));
        for e in &m.entries {
            h = crate::rng::mix(h ^ crate::rng::hash_bytes(&e.name));
            h = crate::rng::mix(h ^ match &e.what {
                crate::model::What::File { exe, data } => data.len() as u64 * 2 + *exe as u64,
                crate::model::What::Link(t) => crate::rng::hash_bytes(t),
            });
        }
    });
    h
}

/// A file of `size` bytes that is almost entirely a hole
pub fn sparse(dir: &Path, name: &str, size: u64, marks: &[(u64, u8)]) {
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::create(dir.join(name)).expect("harness: sparse");
    f.set_len(size).expect("harness: sparse");
    for (o, b) in marks { f.write_all_at(&[*b], *o).expect("harness: sparse"); }
}

/// A file as large as the file system lets it be, up to `size`: a hole; its size
pub fn hole(dir: &Path, name: &str, mut size: u64) -> u64 {
    let f = std::fs::File::create(dir.join(name)).expect("harness: hole");
    while f.set_len(size).is_err() { size /= 2; }
    size
}

pub fn shows(c: Chunk) -> String { format!("{:?}", c) }

/// The device that is always full, if this system has it
pub fn dev_full() -> Option<std::fs::File> {
    use std::os::unix::fs::{FileTypeExt, MetadataExt};
    let m = std::fs::symlink_metadata("/dev/full").ok()?;
    if !m.file_type().is_char_device() || m.rdev() != libc::makedev(1, 7) { return None; }
    std::fs::OpenOptions::new().write(true).open("/dev/full").ok()
}
