//! C29: the work of an operation is in proportion to what it works on.
use std::collections::HashMap;
use std::ffi::OsStr;
use std::io::Cursor;
use std::path::PathBuf;

use dir_signature::get_hash;
use dir_signature::v1::merge::MergedSignatures;
use dir_signature::v1::{self, Emitter, Entry, EntryKind, Hashes, Parser};

use crate::alloc;
use crate::ctx::{Ctx, Prop, R};
use crate::gen::describe;
use crate::io::{Chunk, Sink, Src};
use crate::model::*;
use crate::props::util::*;
use crate::rng::Rng;
use crate::shim::{self, Sess, K};
use crate::{ensure, fail};

pub static C29: Prop = Prop {
    id: "C29", level: "exploration",
    rule: "two kinds of cases: scans of generated trees of which every libc call is recorded and counted against the tree (each directory listed once per source, each file's bytes and each link read once, a bounded number of other calls per entry; also scans that fail), and pairs of inputs of one shape, one eight times the size of the other (entries, directories, digests, long names, targets and paths, sources, damaged lines, calls made), for which allocations, bytes allocated and processor time of each operation are compared; non-trivial when something was counted or both sizes measured, distinct by tree and configuration or shape and operation",
    quick: 6000, thorough: 200000, quick_s: 60, thorough_s: 600, run: c29,
    assumptions: &["processor time: the least of up to 12 runs, and an eightfold input may take 24 times as long before it is a violation"],
    need: &["scans counted", "failing scans counted", "files read once", "directories listed once", "pairs measured", "of them by worker threads"],
};

const F: usize = 8;

fn c29(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let i = cx.idx as usize;
    // the long ones last, so that no worker is left with several of them
    if i < SCANS { return grow_scan(cx, &mut rng, i); }
    if i < SCANS + SHAPES * OPS { return grow_text(cx, &mut rng, (i - SCANS) / OPS, (i - SCANS) % OPS); }
    if i < SCANS + SHAPES * OPS + STREAMS { return grow_stream(cx, &mut rng, i - SCANS - SHAPES * OPS); }
    calls(cx, &mut rng)
}

// ---- calls of a scan

fn calls(cx: &mut Ctx, rng: &mut Rng) -> R {
    let k = knobs(rng);
    let f = if cx.idx % 50 == 0 {
        let (_, t) = special((cx.idx / 50) % SPECIALS, rng).expect("harness: special");
        put(cx, t)
    } else { forest(cx, &k, 4) };
    let c = cfg(rng);
    let mut sess = conditions(rng, false);
    sess.short = 0;
    sess.eintr = 0;
    sess.log = Some(Default::default());
    sess.resolve = true;
    // some scans are ended by an error
    let failing = rng.chance(1, 4);
    if failing {
        let at = rng.below(200);
        let e = *rng.pick(&[libc::EACCES, libc::EIO, libc::ENOMEM, libc::EMFILE]);
        sess.pre = Some(Box::new(move |s, call| {
            if call.seq >= at && !matches!(call.k, K::Close | K::CloseDir | K::Mutate) && s.injected.load(std::sync::atomic::Ordering::SeqCst) == 0 { shim::Act::Fail(e) } else { shim::Act::Pass }
        }));
    }
    let mut sink = Sink::plain();
    let r = scan(cx, &c, &f.roots, &mut sink, &sess)?;
    let log = sess.take_log();
    let what = format!("{}; {}", describe(&f.merged), c.describe());
    if let Err(ref e) = r { ensure!(failing, "the scan fails: {} ({})", e, what); }
    // what there is, over all sources
    let (mut dirs, mut files, mut links, mut bytes, mut blocks, mut other) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    fn sum(d: &Dir, g: &mut dyn FnMut(&Node)) { for n in d.values() { g(n); if let Node::Dir(s, _) = n { sum(s, g); } } }
    for t in &f.trees {
        dirs += 1;
        sum(t, &mut |n| match n {
            Node::Dir(..) => dirs += 1,
            Node::File { data, .. } => { files += 1; bytes += data.len() as u64; blocks += (data.len() as u64 + 511) / 512; }
            Node::Link(_) => links += 1,
            _ => other += 1,
        });
    }
    let nodes = dirs + files + links + other;
    let (mut rb, mut rc, mut ls, mut rl, mut st, mut fdo) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut opens: HashMap<Vec<u8>, (u64, u64)> = HashMap::new();
    let mut total = 0u64;
    let mut sysfd = std::collections::HashSet::new();
    for e in &log {
        let sys = |p: &[u8]| crate::props::live::system(p);
        match e.call.k {
            K::Open => {
                if e.ret < 0 { continue; }
                // /proc tells the number of processors before the workers start
                if sys(&e.path) { sysfd.insert(e.ret); continue; }
                sysfd.remove(&e.ret);
                // longer than a path can be
                if e.path.is_empty() { continue; }
                let n = opens.entry(e.path.clone()).or_default();
                if e.ftype == libc::S_IFREG { n.0 += 1; } else { n.1 += 1; }
            }
            K::Close => { sysfd.remove(&e.call.fd); }
            K::Read if sysfd.contains(&e.call.fd) => continue,
            K::Read => { rc += 1; if e.ret > 0 { rb += e.ret as u64; } }
            K::ReadDir => if e.ret > 0 { ls += 1; },
            // the path of a directory of a special file is looked up for the warning
            K::ReadLink => if !sys(&e.call.name) { rl += 1; },
            K::Stat => st += 1,
            K::FdOpenDir => fdo += 1,
            _ => {}
        }
        total += 1;
    }
    cx.eval();
    ensure!(rb <= bytes, "{} bytes were read, all files together have {} ({})", rb, bytes, what);
    if r.is_ok() { ensure!(rb == bytes, "{} bytes were read of {} and the scan succeeds ({})", rb, bytes, what); }
    ensure!(rc <= blocks + 8 * files + 8, "{} calls to read {} files of {} bytes ({})", rc, files, bytes, what);
    // . and .. come with each listing
    let want = nodes - f.trees.len() as u64 + 2 * dirs;
    ensure!(ls <= want, "{} entries were listed, there are {} ({})", ls, want, what);
    ensure!(fdo <= dirs, "{} listings of {} directories ({})", fdo, dirs, what);
    ensure!(rl <= 2 * links + 2 * other, "{} links were read, there are {} ({})", rl, links, what);
    ensure!(st <= 4 * nodes + 8, "{} calls to inspect {} nodes ({})", st, nodes, what);
    for (p, (nf, nd)) in &opens {
        // hard links: the path is that of one of the names, so count by name
        ensure!(*nf <= f.trees.len() as u64, "file {} was opened {} times ({})", show(p), nf, what);
        ensure!(*nd <= 4 * f.trees.len() as u64, "directory {} was opened {} times ({})", show(p), nd, what);
    }
    ensure!(total <= 24 * nodes + 3 * rc + 100, "{} calls for {} nodes ({})", total, nodes, what);
    cx.count("scans counted", 1);
    if r.is_err() { cx.count("failing scans counted", 1); }
    cx.count("files read once", files);
    cx.count("directories listed once", dirs);
    cx.max("calls per 100 nodes", (total - rc) * 100 / nodes);
    cx.nontrivial(fingerprint(&f.merged, &what));
    cx.sample(|| format!("{}: {} calls, {} bytes read, {} entries listed", what, total, rb, ls));
    Ok(())
}

// ---- growth

#[derive(Clone, Copy, Debug, Default)]
struct Cost { ns: u64, calls: u64, bytes: u64, ops: u64 }

fn cpu() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t); }
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

fn cost(f: &mut dyn FnMut() -> Result<u64, String>) -> Result<Cost, crate::ctx::Violation> {
    let a = cpu();
    let (r, u) = alloc::measure(|| { let r = f(); shim::wait_threads(); r });
    let ns = cpu() - a;
    match r { Ok(ops) => Ok(Cost { ns, calls: u.calls, bytes: u.bytes, ops }), Err(e) => fail!("{}", e) }
}

/// `small` and `big` do the same, the second on F times as much
fn compare(cx: &mut Ctx, what: &str, small: &mut dyn FnMut() -> Result<u64, String>, big: &mut dyn FnMut() -> Result<u64, String>) -> R {
    let mut a = cost(small)?;
    let mut b = cost(big)?;
    cx.eval();
    let f = F as u64;
    // growing buffers double
    ensure!(b.calls <= 2 * f * a.calls + 2000, "{}: {} allocations for one, {} for {} times as much", what, a.calls, b.calls, f);
    ensure!(b.bytes <= 3 * f * a.bytes + 1_000_000, "{}: {} bytes allocated for one, {} for {} times as much", what, a.bytes, b.bytes, f);
    let over = |a: &Cost, b: &Cost| b.ns > 24 * a.ns + 15_000_000;
    let (mut n, mut spent) = (1, b.ns);
    // one that takes minutes isn't repeated as often
    while over(&a, &b) && (n < 3 || n < 12 && spent < 8_000_000_000) && spent < 60_000_000_000 {
        let x = cost(small)?;
        let y = cost(big)?;
        // a short run is measured badly: take the longest of the small ones
        if x.ns > a.ns { a.ns = x.ns; }
        if y.ns < b.ns { b.ns = y.ns; }
        n += 1;
        spent += y.ns;
        cx.tick();
    }
    ensure!(!over(&a, &b), "{}: {} us of processor time for one, {} us for {} times as much, at best of {} runs", what, a.ns / 1000, b.ns / 1000, f, n);
    cx.max("growth of processor time in percent of eightfold", if a.ns > 2_000_000 { b.ns * 100 / (a.ns * f) } else { 0 });
    cx.max("growth of allocations in percent of eightfold", if a.calls > 200 { b.calls * 100 / (a.calls * f) } else { 0 });
    cx.max("growth of bytes allocated in percent of eightfold", if a.bytes > 100_000 { b.bytes * 100 / (a.bytes * f) } else { 0 });
    cx.count("pairs measured", 1);
    cx.max("longest run measured in ms", b.ns / 1_000_000);
    cx.nontrivial(crate::rng::hash_bytes(what.as_bytes()));
    cx.sample(|| format!("{}: {:?} -> {:?}", what, a, b));
    if std::env::var_os("VH_WORK").is_some() { eprintln!("{}: {:?} -> {:?}  x{:.1}", what, a, b, b.ns as f64 / a.ns as f64); }
    Ok(())
}

const SHAPES: usize = 10;
fn shape(i: usize, n: usize, h: H) -> (&'static str, u64, Vec<u8>) {
    let mut o;
    let d = "0123456789abcdef".repeat(4);
    let mut bs = BS;
    let name = match i {
        0 => { o = header(h, bs); o.extend_from_slice(b"/\n"); for k in 0..n { o.extend_from_slice(format!("  n{:07} f 5 {}\n", k, d).as_bytes()); } "files in a directory" }
        1 => { o = header(h, bs); for k in 0..n { o.extend_from_slice(if k == 0 { "/\n".to_string() } else { format!("/d{:07}\n  f x 1 {}\n", k, d) }.as_bytes()); } "directories" }
        2 => { o = header(h, bs); o.extend_from_slice(b"/\n"); for k in 0..n { o.extend_from_slice(format!("  l{:07} s ../t{}\n", k, k).as_bytes()); } "links" }
        3 => { o = header(h, bs); o.extend_from_slice(b"/\n  "); o.resize(o.len() + n * 50, b'n'); o.extend_from_slice(format!(" f 5 {}\n", d).as_bytes()); "a long name" }
        4 => { o = header(h, bs); o.extend_from_slice(b"/\n  l s "); o.resize(o.len() + n * 50, b't'); o.extend_from_slice(b"\n"); "a long target" }
        5 => { bs = 1; o = header(h, bs); o.extend_from_slice(format!("/\n  f f {}", n).as_bytes()); for _ in 0..n { o.push(b' '); o.extend_from_slice(d.as_bytes()); } o.push(b'\n'); "many digests" }
        6 => { o = header(h, bs); for _ in 0..n { o.extend_from_slice(b"/a"); } o.extend_from_slice(b"\n  f f 0\n"); "a path of many names" }
        7 => { o = header(h, bs); o.push(b'/'); for _ in 0..n * 5 { o.extend_from_slice(b"\\x20\\x5c\\xff"); } o.extend_from_slice(b"\n  f f 0\n"); "a path of many escapes" }
        8 => { o = header(h, bs); o.extend_from_slice(b"/\n"); for k in 0..n { if k % 10 == 0 { o.extend_from_slice(format!("/d{:07}\n", k).as_bytes()); } o.extend_from_slice(format!("  e{} x 0\n", k % 10).as_bytes()); } "directories of ten" }
        _ => { o = header(h, bs); o.extend_from_slice(b"/\n  l s "); for _ in 0..n * 5 { o.extend_from_slice(b"\\x20"); } o.extend_from_slice(b"\n"); "a target of many escapes" }
    };
    o.extend_from_slice(format!("{}\n", d).as_bytes());
    (name, bs, o)
}

const OPS: usize = 10;
fn op(i: usize) -> &'static str {
    ["reading", "seeking beyond", "seeking each", "seeking what is passed", "merging", "merging and seeking", "emitting", "reading the identifier", "reading damaged lines", "merging what is disjoint"][i]
}

fn kinds(t: &[u8]) -> Result<Vec<EntryKind<PathBuf>>, String> {
    let mut p = Parser::new(t).map_err(|e| e.to_string())?;
    let mut v = Vec::new();
    for e in p.iter() { v.push(e.map_err(|e| e.to_string())?.kind().cloned()); }
    Ok(v)
}

struct Text { h: H, bs: u64, t: Vec<u8>, ks: Vec<EntryKind<PathBuf>>, bad: Vec<u8>, other: Vec<u8> }

fn run_op(i: usize, x: &Text) -> Result<u64, String> {
    let s = |e: v1::ParseError| e.to_string();
    let open = || Parser::new(Src::new(&x.t, Chunk::Fixed(4096))).map_err(s);
    let mut n = 0u64;
    match i {
        0 => for e in open()?.iter() { e.map_err(s)?; n += 1; },
        1 => { let mut p = open()?; n = p.iter().advance(&EntryKind::Dir("/zzz")).is_none() as u64; }
        2 => { let mut p = open()?; let mut it = p.iter(); for k in &x.ks { if it.advance(k).is_none() { return Err(format!("{:?} isn't found", k.path())); } n += 1; } }
        3 => {
            let mut p = open()?;
            let mut it = p.iter();
            if let Some(k) = x.ks.get(x.ks.len() * 2 / 3) { it.advance(k); }
            let first = EntryKind::Dir("/");
            for _ in 0..x.ks.len() { if it.advance(&first).is_some() { return Err("found again".into()); } n += 1; }
        }
        4 => {
            let ps: Result<Vec<_>, String> = (0..3).map(|k| Ok((k, open()?))).collect();
            let mut m = MergedSignatures::new(ps?).map_err(|e| e.to_string())?;
            for g in m.iter() { n += g.len() as u64; }
        }
        5 => {
            let ps: Result<Vec<_>, String> = (0..3).map(|k| Ok((k, open()?))).collect();
            let mut m = MergedSignatures::new(ps?).map_err(|e| e.to_string())?;
            let mut it = m.iter();
            for k in &x.ks { n += it.advance(k).len() as u64; }
        }
        6 => {
            let mut p = open()?;
            let mut sink = Vec::new();
            let mut e = Emitter::new(x.h.ht(), x.bs, &mut sink).map_err(|e| e.to_string())?;
            for y in p.iter() {
                n += 1;
                match y.map_err(s)? {
                    Entry::Dir(p) => e.start_dir(&p),
                    Entry::Link(p, d) => e.add_symlink(p.file_name().unwrap_or(OsStr::new("")), &d),
                    Entry::File { path, exe, size, hashes } => e.add_file(path.file_name().unwrap_or(OsStr::new("")), exe, size, &hashes),
                }.map_err(|e| e.to_string())?;
            }
            e.finish().map_err(|e| e.to_string())?;
        }
        7 => {
            for _ in 0..200 { n += get_hash(&mut Cursor::new(&x.t)).map_err(|e| e.to_string())?.len() as u64; }
            let mut src = Src::new(&x.t, Chunk::All);
            get_hash(&mut src).map_err(|e| e.to_string())?;
            if src.calls > 200 { return Err(format!("{} reads for the identifier", src.calls)); }
        }
        8 => {
            let mut p = Parser::new(Src::new(&x.bad, Chunk::Fixed(4096))).map_err(s)?;
            for e in p.iter() { if let Err(e) = e { n += e.to_string().len() as u64; } }
        }
        _ => {
            let ps = vec![(0, open()?), (1, Parser::new(Src::new(&x.other, Chunk::Fixed(4096))).map_err(s)?)];
            let mut m = MergedSignatures::new(ps).map_err(|e| e.to_string())?;
            for g in m.iter() { n += g.len() as u64; }
        }
    }
    Ok(n)
}

fn grow_text(cx: &mut Ctx, rng: &mut Rng, sh: usize, o: usize) -> R {
    let h = *rng.pick(&ALL_H);
    let make = |n: usize| -> Result<(&'static str, Text), crate::ctx::Violation> {
        let (name, bs, t) = shape(sh, n, h);
        let ks = match kinds(&t) { Ok(k) => k, Err(e) => fail!("{}: {}", name, e) };
        // every line is wrong at its end
        let at = t.iter().position(|&b| b == b'\n').unwrap() + 1;
        let mut bad = t[..at].to_vec();
        for l in t[at..].split(|&b| b == b'\n') { if !l.is_empty() { bad.extend_from_slice(l); bad.extend_from_slice(b" \\x\n"); } }
        let mut other = t.clone();
        for b in other[at..].iter_mut() { *b = match *b { b'n' => b'm', b'l' => b'k', b'e' => b'd', b'd' => b'e', x => x }; }
        Ok((name, Text { h, bs, t, ks, bad, other }))
    };
    // first the lesser pair, by which the worst are found in seconds
    let base = 6000;
    let (_, z) = make(base / F)?;
    let (name, a) = make(base)?;
    compare(cx, &format!("{} a small index with {} ({})", op(o), name, h.name()), &mut || run_op(o, &z), &mut || run_op(o, &a))?;
    let (_, b) = make(base * F)?;
    compare(cx, &format!("{} an index with {} ({})", op(o), name, h.name()), &mut || run_op(o, &a), &mut || run_op(o, &b))
}

const STREAMS: usize = 4;
fn grow_stream(cx: &mut Ctx, rng: &mut Rng, i: usize) -> R {
    let h = if i == 3 { H::B2 } else { *rng.pick(&[H::Sha, H::B2]) };
    let bs = 16u64;
    let n = 20_000;
    let small = rng.bytes(n);
    let mut big = Vec::new();
    for _ in 0..F { big.extend_from_slice(&small); }
    let hs = |d: &[u8]| Hashes::hash_file(h.ht(), bs, d).map(|x| x.1).map_err(|e| e.to_string());
    let (ha, hb) = match (hs(&small), hs(&big)) { (Ok(a), Ok(b)) => (a, b), _ => fail!("hashing fails") };
    let go = |d: &[u8], hh: &Hashes| -> Result<u64, String> {
        match i {
            0 => Hashes::hash_file(h.ht(), bs, Src::new(d, Chunk::Fixed(4096))).map(|x| x.0).map_err(|e| e.to_string()),
            1 => hh.check_file(Src::new(d, Chunk::Fixed(4096))).map_err(|e| e.to_string()).and_then(|x| if x { Ok(1) } else { Err("not the same".into()) }),
            2 => { let mut x = 0; for k in 0..hh.len() { x += hh.get(k).map_or(0, |d| d[0] as u64); } Ok(x) }
            _ => Ok(hh.iter().map(|d| d[0] as u64).sum::<u64>() + hh.clone().len() as u64 + (*hh == hh.clone()) as u64),
        }
    };
    compare(cx, &format!("{} blocks ({})", ["hashing", "checking", "getting", "iterating"][i], h.name()), &mut || go(&small, &ha), &mut || go(&big, &hb))
}

const SCANS: usize = 14;
fn grow_scan(cx: &mut Ctx, rng: &mut Rng, i: usize) -> R {
    let shape = i / 2;
    let mut c = cfg(rng);
    c.threads = if i % 2 == 0 { 0 } else { 3 };
    c.queue = *rng.pick(&[None, Some(1), Some(100_000)]);
    c.progress = false;
    let make = |cx: &mut Ctx, rng: &mut Rng, n: usize| -> (String, Vec<(PathBuf, PathBuf)>) {
        let empty = |k: usize| Node::File { data: std::rc::Rc::new(vec![1; k % 3]), mode: 0o644, hard: 0 };
        let nm = |k: usize| format!("{:x}", crate::rng::mix(k as u64) as u32 as u64 * 70_001 + k as u64).into_bytes();
        let mut d = Dir::new();
        let name = match shape {
            0 => { for k in 0..n { d.insert(nm(k), empty(k)); } "files in a directory" }
            1 => { for k in 0..n { d.insert(nm(k), Node::Dir(Dir::new(), 0o755)); } "directories in a directory" }
            2 => { for k in 0..n { d.insert(nm(k), Node::Link(nm(k))); } "links in a directory" }
            3 => { for k in 0..n / 20 { let mut s = Dir::new(); for j in 0..20 { s.insert(nm(j), empty(j)); } d.insert(nm(k), Node::Dir(s, 0o755)); } "directories of twenty" }
            4 => {
                // long names in sorted order, all equal at the start
                for k in 0..n / 4 { d.insert(format!("{}{:07}", "n".repeat(200), k).into_bytes(), empty(k)); }
                "names of 207 bytes"
            }
            5 => {
                let p = cx.dir();
                sparse(&p, "blocks", (n as u64 * BS) / 8, &[(7, 7)]);
                return ("blocks of a file".into(), vec![(p, PathBuf::from("/"))]);
            }
            _ => {
                let mut t = Vec::new();
                for k in 0..n / 100 { let mut d = Dir::new(); d.insert(b"same".to_vec(), empty(k)); d.insert(nm(k), Node::Dir(Dir::new(), 0o755)); t.push(d); }
                return ("sources".into(), put(cx, t).roots);
            }
        };
        let _ = rng;
        (name.into(), put(cx, vec![d]).roots)
    };
    let base = 3000;
    let (name, ra) = make(cx, rng, base);
    let (_, rb) = make(cx, rng, base * F);
    let go = |roots: &[(PathBuf, PathBuf)]| -> Result<u64, String> {
        let conf = config(&c, roots);
        let mut sink = crate::io::Counter { n: 0 };
        v1::scan(&conf, &mut sink).map_err(|e| e.to_string())?;
        Ok(sink.n)
    };
    // and the calls made
    let mut n = [0u64; 2];
    for (j, r) in [&ra, &rb].iter().enumerate() {
        let sess = Sess::new();
        scan_ok(cx, &c, r, &sess)?;
        n[j] = sess.total();
    }
    let what = format!("scanning {} ({})", name, c.describe());
    ensure!(n[1] <= F as u64 * n[0] + n[0] / 4 + 400, "{}: {} calls for one, {} for {} times as much", what, n[0], n[1], F);
    if c.threaded() { cx.count("of them by worker threads", 1); }
    compare(cx, &what, &mut || go(&ra), &mut || go(&rb))
}
