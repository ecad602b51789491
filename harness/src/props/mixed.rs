//! C26: operations do not influence each other.
use std::io::{self, BufRead, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use dir_signature::v1::merge::MergedSignatures;
use dir_signature::v1::{self, Emitter, Entry, Hashes, Parser};
use dir_signature::{get_hash, HashType, ScannerConfig};

use crate::ctx::{Ctx, Prop, R};
use crate::gen;
use crate::io::{chunks, Fault, Sink, Src};
use crate::model::*;
use crate::props::parse::{self, hostile, random_index};
use crate::props::util::*;
use crate::rng::{hash_bytes, Rng};
use crate::shim::{self, Sess};
use crate::{ensure, fail};

pub static C26: Prop = Prop {
    id: "C26", level: "exploration",
    rule: "each case draws 10 to 18 operations of all kinds (scans that succeed and fail, with threads and without, into working, failing and panicking sinks; reading, seeking, merging, re-emitting of good and damaged indexes, abandoned half way or not; hashing and verifying of streams; identifiers), computes the result of each alone, and then runs them in other orders, several live at once in a thread, inside each other's readers and sinks, and from 2 to 8 threads at once with shared configurations; and one path is scanned repeatedly with the tree behind it exchanged; every result must be the one it had alone, and scans and reads are compared with the model; non-trivial always, distinct by operations and order",
    quick: 2400, thorough: 60000, quick_s: 40, thorough_s: 600, run: c26,
    assumptions: &["the result of an operation alone is that of its first run in the process, and for scans, reads, hashes and identifiers also that of the model"],
    need: &["operations in another order", "operations at once in threads", "operations inside another", "interleaved steps", "sources exchanged between scans", "after a panic", "of them by worker threads"],
};

type Nest<'a> = Option<&'a (dyn Fn() + Sync)>;

/// Calls back from inside a reader or a sink
struct In<'a, T> { t: T, nest: Nest<'a> }
impl<'a, T> In<'a, T> {
    fn new(t: T, nest: Nest<'a>) -> In<'a, T> { In { t, nest } }
    fn hit(&self) { if let Some(f) = self.nest { f(); } }
}
impl<'a, T: Write> Write for In<'a, T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.hit(); self.t.write(b) }
    fn flush(&mut self) -> io::Result<()> { self.t.flush() }
}
impl<'a, T: Read> Read for In<'a, T> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.hit(); self.t.read(b) } }
impl<'a, T: BufRead> BufRead for In<'a, T> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { self.hit(); self.t.fill_buf() }
    fn consume(&mut self, n: usize) { self.t.consume(n) }
}
impl<'a, T: Seek> Seek for In<'a, T> { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.t.seek(p) } }

struct Panics(usize);
impl Write for Panics {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 { panic!("{}", MINE); }
        self.0 -= 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
const MINE: &str = "a sink that panics";

struct Op {
    name: &'static str,
    run: Box<dyn Fn(Nest) -> Vec<u8> + Send + Sync>,
    /// acceptable results, if the model knows
    want: Vec<Vec<u8>>,
    panics: bool,
}

fn err<E: std::fmt::Display>(e: E) -> Vec<u8> { format!("error: {}", e).into_bytes() }

fn read_text<B: BufRead>(r: B, steps: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut p = match Parser::new(r) { Ok(p) => p, Err(e) => return err(e) };
    let mut n = 0;
    for e in p.iter() {
        match e { Ok(e) => out.extend_from_slice(format!("{:?}\n", e).as_bytes()), Err(e) => { out.extend_from_slice(&err(e)); out.push(b'\n'); } }
        n += 1;
        if n >= steps { break; }
    }
    out
}

fn merge(texts: &[Vec<u8>], nest: Nest) -> Vec<u8> {
    let mut ps = Vec::new();
    for (i, t) in texts.iter().enumerate() {
        match Parser::new(In::new(Cursor::new(&t[..]), if i == 0 { nest } else { None })) { Ok(p) => ps.push((i, p)), Err(e) => return err(e) }
    }
    let mut m = match MergedSignatures::new(ps) { Ok(m) => m, Err(e) => return err(e) };
    let mut out = Vec::new();
    let mut it = m.iter();
    let mut n = 0;
    while let Some(g) = it.next() {
        for (k, e) in g { out.extend_from_slice(format!("{} {}; ", k, match e { Ok(e) => format!("{:?}", e), Err(e) => e.to_string() }).as_bytes()); }
        out.push(b'\n');
        n += 1;
        if n > 100_000 { break; }
    }
    out
}

fn file_digests(h: H, bs: u64, data: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    for d in Digests::new(h, Policy::Spec).file(data, bs) { v.extend_from_slice(&d); }
    v
}

fn step_emitter(e: &mut Emitter, x: &Entry) -> io::Result<()> {
    match x {
        Entry::Dir(p) => e.start_dir(p),
        Entry::File { path, exe, size, hashes } => e.add_file(path.file_name().unwrap_or_default(), *exe, *size, hashes),
        Entry::Link(p, d) => e.add_symlink(p.file_name().unwrap_or_default(), d),
    }
}

/// In all runs this file cannot be opened
const LOCKED: &[u8] = b"mm-locked";
fn locked(mut s: Sess) -> Sess {
    s.pre = Some(Box::new(|_, c| if c.k == shim::K::Open && c.name == LOCKED { shim::Act::Fail(libc::EACCES) } else { shim::Act::Pass }));
    s
}

struct Made { ops: Vec<Op> }

fn make(cx: &mut Ctx, rng: &mut Rng) -> Made {
    let mut ops: Vec<Op> = Vec::new();
    let mut k = knobs(rng);
    k.nodes = *rng.pick(&[3usize, 10, 25]);
    k.max_file = *rng.pick(&[200usize, 70_000]);
    k.hard = false;
    let mut forests = vec![forest(cx, &k, 2)];
    for _ in 0..rng.range(1, 2) { forests.push(forest(cx, &k, 2)); }
    let mut texts: Vec<(Vec<u8>, H)> = Vec::new();
    for _ in 0..4 { let h = *rng.pick(&ALL_H); texts.push((random_index(rng, h).0, h)); }
    let lockdir = {
        let mut t = gen::tree(rng, &k);
        t.insert(LOCKED.to_vec(), Node::File { data: std::rc::Rc::new(vec![7; 9]), mode: 0o644, hard: 0 });
        put(cx, vec![t])
    };
    let n = rng.range(10, 18);
    // one configuration used by several
    let mut confs: Vec<(usize, Cfg, Arc<ScannerConfig>)> = Vec::new();
    for _ in 0..n {
        let op = match rng.below(25) {
            0..=5 => {
                let (fi, c, conf) = if !confs.is_empty() && rng.chance(1, 3) { rng.pick(&confs).clone() } else {
                    let fi = rng.us(forests.len());
                    let mut c = cfg(rng);
                    c.progress = false;
                    c.threads = c.threads.min(4);
                    let conf = Arc::new(config(&c, &forests[fi].roots));
                    confs.push((fi, c.clone(), conf.clone()));
                    (fi, c, conf)
                };
                let f = &forests[fi];
                match rng.below(7) {
                    0..=3 => {
                        let ch = chunks(rng);
                        let want = if c.h == H::B3 { vec![render(&f.merged, c.h, if c.threaded() { Policy::CumFile } else { Policy::CumAll }), render(&f.merged, c.h, Policy::Spec)] } else { vec![render(&f.merged, c.h, Policy::Spec)] };
                        Op { name: if c.threaded() { "scan with threads" } else { "scan" }, panics: false, want, run: Box::new(move |nest| {
                            let mut s = In::new(Sink::new(ch), nest);
                            match v1::scan(&conf, &mut s) { Ok(()) => s.t.data, Err(e) => err(e) }
                        }) }
                    }
                    4 | 5 => {
                        let at = rng.us(2000);
                        let kind = *rng.pick(&[ErrorKind::Other, ErrorKind::BrokenPipe]);
                        let len = render(&f.merged, c.h, Policy::Spec).len();
                        Op { name: "scan into a failing sink", panics: false, want: vec![], run: Box::new(move |nest| {
                            let mut s = Sink::plain();
                            s.at = at.min(len - 1);
                            s.fault = Fault::Error(kind);
                            let mut s = In::new(s, nest);
                            let mut r = match v1::scan(&conf, &mut s) { Ok(()) => b"no error".to_vec(), Err(e) => err(e) };
                            r.extend_from_slice(&s.t.data);
                            r
                        }) }
                    }
                    _ => {
                        let at = rng.us(3);
                        Op { name: "scan into a panicking sink", panics: true, want: vec![b"panic".to_vec()], run: Box::new(move |_| {
                            let mut s = Panics(at);
                            match catch_unwind(AssertUnwindSafe(|| v1::scan(&conf, &mut s).map_err(|e| e.to_string()))) { Err(_) => b"panic".to_vec(), Ok(x) => format!("{:?}", x).into_bytes() }
                        }) }
                    }
                }
            }
            6 => {
                let missing = rng.chance(1, 2);
                let h = *rng.pick(&ALL_H);
                let threads = *rng.pick(&[0usize, 3]);
                let p = forests[0].roots[0].0.join("does-not-exist-6cfe");
                Op { name: "scan without a source", panics: false, want: vec![], run: Box::new(move |nest| {
                    let mut s = In::new(Sink::plain(), nest);
                    let mut c = ScannerConfig::new();
                    c.hash(h.ht()).threads(threads);
                    if missing { c.add_dir(&p, "/"); }
                    let mut r = match v1::scan(&c, &mut s) { Ok(()) => b"no error".to_vec(), Err(e) => err(e) };
                    r.extend_from_slice(&s.t.data);
                    r
                }) }
            }
            7..=9 => {
                let (t, _) = rng.pick(&texts).clone();
                let ch = chunks(rng);
                let steps = if rng.chance(1, 4) { rng.us(8) + 1 } else { 1_000_000 };
                Op { name: if steps < 100 { "reading given up" } else { "reading" }, panics: false, want: vec![], run: Box::new(move |nest| read_text(In::new(Src::new(&t, ch), nest), steps)) }
            }
            10 | 11 => {
                let mut t = if rng.chance(1, 2) { hostile(rng) } else { rng.pick(&texts).0.clone() };
                if rng.chance(1, 2) { let n = rng.us(t.len().max(1)); t.truncate(n); }
                Op { name: "reading of a damaged index", panics: false, want: vec![], run: Box::new(move |nest| read_text(In::new(Cursor::new(&t[..]), nest), 100_000)) }
            }
            12 | 13 => {
                let mut v: Vec<Vec<u8>> = Vec::new();
                for _ in 0..rng.range(1, 4) { v.push(rng.pick(&texts).0.clone()); }
                Op { name: "merging", panics: false, want: vec![], run: Box::new(move |nest| merge(&v, nest)) }
            }
            14 | 15 => {
                let (t, h) = rng.pick(&texts).clone();
                let fails = rng.chance(1, 3);
                let at = rng.us(t.len());
                let ch = chunks(rng);
                let want = if fails { vec![] } else { vec![t.clone()] };
                Op { name: "re-emitting", panics: false, want, run: Box::new(move |nest| {
                    let mut p = Parser::new(Cursor::new(&t[..])).unwrap();
                    let bs = p.get_header().get_block_size();
                    let v: Vec<Entry> = p.iter().collect::<Result<_, _>>().unwrap();
                    let mut s = Sink::new(ch);
                    if fails { s.at = at; s.fault = Fault::Error(ErrorKind::Other); }
                    let mut w = In::new(s, nest);
                    let r = (|| -> io::Result<()> {
                        let mut e = Emitter::new(h.ht(), bs, &mut w)?;
                        for x in &v { step_emitter(&mut e, x)?; }
                        e.finish()
                    })();
                    match r { Ok(()) => w.t.data, Err(e) => { let mut r = err(e); r.extend_from_slice(&w.t.data); r } }
                }) }
            }
            16 | 17 => {
                let h = *rng.pick(&[H::Sha, H::B2, H::B3]);
                let bs = *rng.pick(&[1u64, 7, 64, 1000, 32768, 1 << 20]);
                let n = gen::size(rng, (bs as usize * 20).min(150_000));
                let data = gen::content(rng, n);
                let ch = chunks(rng);
                let want = if h == H::B3 { vec![] } else { vec![file_digests(h, bs, &data)] };
                let fail_at = if rng.chance(1, 4) { Some((rng.us(n + 1), ErrorKind::Other)) } else { None };
                Op { name: "hashing of a stream", panics: false, want: if fail_at.is_some() { vec![] } else { want }, run: Box::new(move |nest| {
                    let mut s = Src::new(&data, ch);
                    s.fail_at = fail_at;
                    match Hashes::hash_file(h.ht(), bs, In::new(s, nest)) { Ok(x) => x.1.iter().flatten().cloned().collect(), Err(e) => err(e) }
                }) }
            }
            18 | 19 => {
                let h = *rng.pick(&[H::Sha, H::B2]);
                let bs = *rng.pick(&[5u64, 64, 32768]);
                let n = 1 + gen::size(rng, (bs as usize * 10).min(100_000));
                let data = gen::content(rng, n);
                let mut other = data.clone();
                let same = rng.chance(1, 2);
                if !same { let i = rng.us(n); other[i] ^= 1 << rng.below(8); }
                let ch = chunks(rng);
                Op { name: "verifying", panics: false, want: vec![format!("{}", same).into_bytes()], run: Box::new(move |nest| {
                    let hs = match Hashes::hash_file(h.ht(), bs, &data[..]) { Ok(x) => x.1, Err(e) => return err(e) };
                    match hs.check_file(In::new(Src::new(&other, ch), nest)) { Ok(x) => format!("{}", x).into_bytes(), Err(e) => err(e) }
                }) }
            }
            20 => {
                let (t, _) = rng.pick(&texts).clone();
                let ch = chunks(rng);
                let want = t[t.len() - 65..t.len() - 1].to_vec();
                let cut = rng.chance(1, 4);
                Op { name: "identifier", panics: false, want: if cut { vec![] } else { vec![want] }, run: Box::new(move |nest| {
                    let t = if cut { &t[..t.len() - 1] } else { &t[..] };
                    match get_hash(&mut In::new(Src::new(t, ch), nest)) { Ok(v) => hex(&v).into_bytes(), Err(e) => err(e) }
                }) }
            }
            21..=23 => {
                let mut c = cfg(rng);
                c.progress = false;
                c.threads = c.threads.min(4);
                let conf = config(&c, &lockdir.roots);
                let want = err(v1::Error::ReadFile(io::Error::from_raw_os_error(libc::EACCES)));
                Op { name: "scan with a file that cannot be opened", panics: false, want: vec![want], run: Box::new(move |nest| {
                    let mut s = In::new(Sink::plain(), nest);
                    match v1::scan(&conf, &mut s) { Ok(()) => b"no error".to_vec(), Err(e) => err(e) }
                }) }
            }
            _ => {
                let s = rng.pick(&["sha512/256", "blake2b/256", "blake3/256", "sha256", "", "blake3"]).to_string();
                Op { name: "hash type", panics: false, want: vec![], run: Box::new(move |_| match s.parse::<HashType>() { Ok(h) => h.to_string().into_bytes(), Err(e) => err(e) }) }
            }
        };
        ops.push(op);
    }
    Made { ops }
}

fn show_res(v: &[u8]) -> String { String::from_utf8_lossy(&v[..v.len().min(200)]).into_owned() }

fn caught(o: &Op, nest: Nest) -> Vec<u8> {
    match catch_unwind(AssertUnwindSafe(|| (o.run)(nest))) {
        Ok(v) => v,
        Err(_) => { let m = crate::runner::LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default(); format!("PANIC {}", m).into_bytes() }
    }
}

fn c26(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let made = make(cx, &mut rng);
    let ops = &made.ops;
    let n = ops.len();
    let names: Vec<&str> = ops.iter().map(|o| o.name).collect();
    // alone
    let sess = locked(Sess::new());
    let mut alone: Vec<Vec<u8>> = Vec::new();
    let r = shim::with(&sess, || for o in ops { alone.push(caught(o, None)); });
    ensure!(r.is_ok(), "panic outside of operations");
    cx.count("of them by worker threads", sess.worker_calls.load(SeqCst));
    for (i, o) in ops.iter().enumerate() {
        cx.eval();
        cx.seen("operations", o.name);
        if alone[i].starts_with(b"PANIC") { fail!("{} panics: {}", o.name, show_res(&alone[i])); }
        if !o.want.is_empty() && !o.want.contains(&alone[i]) { fail!("{} (after {:?}): {:?}, want {:?}", o.name, &names[..i], diff(&alone[i], &o.want[0]), show_res(&o.want[0])); }
    }
    let order = |rng: &mut Rng, m: usize| { let mut v: Vec<usize> = (0..m).map(|_| rng.us(n)).collect(); if m >= n { v[..n].copy_from_slice(&(0..n).collect::<Vec<_>>()); } rng.shuffle(&mut v); v };
    let wrong = |i: usize, got: &[u8], before: &[usize], how: &str| format!("{} gives another result {}: {} (operations before: {:?})", names[i], how, diff(got, &alone[i]), before.iter().rev().take(6).map(|j| names[*j]).collect::<Vec<_>>());

    // another order
    let v = order(&mut rng, n + n / 2);
    let mut res = Vec::new();
    let sess = locked(conditions(&mut rng, false));
    let r = shim::with(&sess, || for i in &v { res.push(caught(&ops[*i], None)); });
    ensure!(r.is_ok(), "panic outside of operations");
    let mut after = false;
    for (j, i) in v.iter().enumerate() {
        cx.eval();
        cx.count("operations in another order", 1);
        if after { cx.count("after a panic", 1); }
        after |= ops[*i].panics;
        ensure!(res[j] == alone[*i], "{}", wrong(*i, &res[j], &v[..j], "in another order"));
    }
    cx.nontrivial(v.iter().fold(hash_bytes(names.join(",").as_bytes()), |a, i| crate::rng::mix(a ^ *i as u64)));

    // inside one another
    for _ in 0..4 {
        let (a, b) = (rng.us(n), rng.us(n));
        let (ran, bad) = (AtomicU64::new(0), Mutex::new(None));
        // at which calls of its reader or sink
        let (calls, seed, first) = (AtomicU64::new(0), rng.next(), rng.below(24));
        let nest = || {
            let c = calls.fetch_add(1, SeqCst);
            if c != first && (crate::rng::mix(seed ^ c) % 16 != 0 || ran.load(SeqCst) >= 4) { return; }
            let x = caught(&ops[b], None);
            ran.fetch_add(1, SeqCst);
            if x != alone[b] { *bad.lock().unwrap() = Some(x); }
        };
        let sess = locked(Sess::new());
        let mut x = Vec::new();
        let r = shim::with(&sess, || x = caught(&ops[a], Some(&nest)));
        ensure!(r.is_ok(), "panic outside of operations");
        cx.eval();
        cx.count("operations inside another", ran.load(SeqCst));
        if let Some(y) = bad.into_inner().unwrap() { fail!("{}", wrong(b, &y, &[a], &format!("when run by the reader or sink of {}", names[a]))); }
        ensure!(x == alone[a], "{}", wrong(a, &x, &[b], &format!("when its reader or sink runs {}", names[b])));
    }

    interleaved(cx, &mut rng)?;
    exchanged(cx, &mut rng)?;

    // at once
    let threads = *rng.pick(&[2usize, 3, 4, 8]);
    let plans: Vec<Vec<usize>> = (0..threads).map(|_| { let m = rng.range(3, n as u64) as usize; order(&mut rng, m) }).collect();
    let mut sess = locked(conditions(&mut rng, false));
    sess.jitter = rng.next() | 1;
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let gate = std::sync::Barrier::new(threads);
    let done = AtomicU64::new(0);
    let r = shim::with(&sess, || std::thread::scope(|s| {
        for p in &plans {
            let (bad, gate, done, wrong, alone) = (&bad, &gate, &done, &wrong, &alone);
            s.spawn(move || {
                gate.wait();
                for (j, i) in p.iter().enumerate() {
                    let x = caught(&ops[*i], None);
                    done.fetch_add(1, SeqCst);
                    if x != alone[*i] {
                        let mut g = bad.lock().unwrap();
                        if g.is_none() { *g = Some(wrong(*i, &x, &p[..j], &format!("while {} threads work", threads))); }
                        return;
                    }
                }
            });
        }
    }));
    ensure!(r.is_ok(), "panic outside of operations");
    cx.evals += done.load(SeqCst);
    cx.tick();
    cx.count("operations at once in threads", done.load(SeqCst));
    cx.count("of them by worker threads", sess.worker_calls.load(SeqCst));
    if let Some(m) = bad.into_inner().unwrap() { fail!("{}", m); }
    cx.sample(|| format!("{:?}; then {:?}; {} threads", names, v, threads));
    Ok(())
}

/// The same paths again and again, with something else behind them each time
fn exchanged(cx: &mut Ctx, rng: &mut Rng) -> R {
    let mut k = knobs(rng);
    k.nodes = *rng.pick(&[2usize, 6, 15]);
    k.max_file = 70_000;
    let f: Vec<Forest> = (0..2).map(|_| forest(cx, &k, 1)).collect();
    let (p, q) = (f[0].roots[0].0.clone(), f[1].roots[0].0.clone());
    let ix = cx.dir().join("index");
    let t = cx.dir().join("away");
    let mut there = 0;
    let mut conf: Option<(Cfg, ScannerConfig)> = None;
    let mut done = Vec::new();
    for step in 0..rng.range(3, 6) {
        if step > 0 && rng.chance(2, 3) {
            for (a, b) in [(&p, &t), (&q, &p), (&t, &q)] { std::fs::rename(a, b).expect("harness: rename"); }
            there = 1 - there;
            cx.count("sources exchanged between scans", 1);
        }
        if conf.is_none() || rng.chance(1, 2) {
            let mut c = cfg(rng);
            if c.h == H::B3 { c.h = H::B2; }
            c.progress = false;
            c.threads = c.threads.min(4);
            conf = Some((c.clone(), config(&c, &f[0].roots)));
        }
        let (c, sc) = conf.as_ref().unwrap();
        let sess = conditions(rng, true);
        let mut s = Sink::plain();
        let r = match shim::with(&sess, || v1::scan(sc, &mut s).map_err(|e| e.to_string())) { Ok(r) => r, Err(_) => fail!("the scan panics") };
        done.push(there);
        if let Err(e) = r { fail!("scan fails: {} (trees behind the path so far {:?}; {})", e, done, c.describe()); }
        let want = render(&f[there].merged, c.h, Policy::Spec);
        cx.eval();
        ensure!(s.data == want, "the scan of a path behind which there is another tree now: {} (trees behind it so far {:?}; {})", diff(&s.data, &want), done, c.describe());
        // and of index files
        if rng.chance(1, 2) { let _ = std::fs::remove_file(&ix); }
        std::fs::write(&ix, &want).expect("harness: write");
        let mut b = dir_signature::v1::merge::FileMergeBuilder::new();
        b.add("/x", &ix);
        let mut m = match b.finalize() { Ok(m) => m, Err(e) => fail!("{}", e) };
        let n: usize = m.iter().map(|g| g.into_iter().filter(|x| x.1.is_ok()).count()).sum();
        let lines = want.iter().filter(|x| **x == b'\n').count() - 2;
        ensure!(n == lines, "an index file that was exchanged has {} entries, it has {} lines", n, lines);
        let id = match std::fs::File::open(&ix).map_err(|e| e.to_string()).and_then(|mut x| get_hash(&mut x).map_err(|e| e.to_string())) { Ok(x) => hex(&x), Err(e) => fail!("{}", e) };
        ensure!(want.ends_with(format!("{}\n", id).as_bytes()), "the identifier of an index file that was exchanged: {}", id);
    }
    Ok(())
}

/// Several parsers, merges and emitters alive in one thread, a step of each in turn
fn interleaved(cx: &mut Ctx, rng: &mut Rng) -> R {
    let m = rng.range(2, 5) as usize;
    let docs: Vec<(Vec<u8>, H, u64, Vec<Line>)> = (0..m).map(|_| { let h = *rng.pick(&ALL_H); let (t, b, l) = random_index(rng, h); (t, h, b, l) }).collect();
    let chs: Vec<_> = (0..m).map(|_| chunks(rng)).collect();
    let mut ps = Vec::new();
    for (i, d) in docs.iter().enumerate() { match Parser::new(Src::new(&d.0, chs[i])) { Ok(p) => ps.push(p), Err(e) => fail!("{}", e) } }
    let mut sinks: Vec<Sink> = (0..m).map(|_| Sink::new(chunks(rng))).collect();
    {
        let mut its: Vec<_> = ps.iter_mut().map(|p| p.iter()).collect();
        let mut ems = Vec::new();
        for (d, s) in docs.iter().zip(sinks.iter_mut()) {
            match Emitter::new(d.1.ht(), d.2, s) { Ok(e) => ems.push(e), Err(e) => fail!("{}", e) }
        }
        let mut at = vec![0usize; m];
        let mut open: Vec<usize> = (0..m).collect();
        while !open.is_empty() {
            let x = rng.us(open.len());
            let i = open[x];
            cx.count("interleaved steps", 1);
            match its[i].next() {
                None => {
                    ensure!(at[i] == docs[i].3.len(), "one of {} parsers at work ends after {} of {} entries", m, at[i], docs[i].3.len());
                    if let Err(e) = ems[i].finish() { fail!("{}", e); }
                    open.remove(x);
                }
                Some(Err(e)) => fail!("one of {} parsers at work: {}", m, e),
                Some(Ok(e)) => {
                    ensure!(at[i] < docs[i].3.len(), "one of {} parsers at work gives too many entries", m);
                    if let Some(d) = parse::entry_diff(&e, &docs[i].3[at[i]], docs[i].1, docs[i].2) { fail!("one of {} parsers at work: {}", m, d); }
                    at[i] += 1;
                    if let Err(e) = step_emitter(&mut ems[i], &e) { fail!("{}", e); }
                }
            }
        }
    }
    for (d, s) in docs.iter().zip(&sinks) { ensure!(s.data == d.0, "one of {} emitters at work: {}", m, diff(&s.data, &d.0)); }
    cx.eval();
    Ok(())
}
