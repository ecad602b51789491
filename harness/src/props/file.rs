//! C13 and C14: digest lists and content.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::{self, ErrorKind, Read};
use std::path::PathBuf;
use std::rc::Rc;

use dir_signature::v1::{Entry, Hashes, Parser};

use crate::ctx::{Ctx, Prop, R};
use crate::gen;
use crate::io::{chunks, Src, MARK};
use crate::model::*;
use crate::props::util;
use crate::rng::{hash_bytes, Rng};
use crate::{ensure, fail};

const BLOCKS: &[u64] = &[1, 2, 3, 7, 16, 63, 64, 65, 100, 1000, 1024, 4096, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65536, 1 << 20, 1 << 32, u64::MAX - 1, u64::MAX];

/// A block size and content with a few blocks of it
fn content(rng: &mut Rng) -> (u64, Vec<u8>) {
    let bs = match rng.below(4) { 0 => 32768, 1 => rng.range(1, 300), _ => *rng.pick(BLOCKS) };
    let max = 300_000u64;
    let small = bs.min(20_000);
    let n = match rng.below(9) {
        0 => 0,
        1 => bs,
        2 => bs.saturating_sub(1),
        3 => bs.saturating_add(1),
        4 => small * rng.below(12),
        5 => small * rng.below(12) + 1,
        6 => (small * rng.range(1, 12)).saturating_sub(1),
        _ => rng.below(small * 9 + 3),
    };
    let mut n = if n > max { rng.below(max) } else { n };
    // not too many blocks
    if n / bs > 600 { n = bs * 600 + n % bs; }
    (bs, gen::content(rng, n as usize))
}

fn spec(h: H, bs: u64, data: &[u8]) -> Vec<[u8; 32]> { Digests::new(h, Policy::Spec).file(data, bs) }
fn cum(h: H, bs: u64, data: &[u8]) -> Vec<[u8; 32]> { Digests::new(h, Policy::CumFile).file(data, bs) }

fn same(a: &Hashes, b: &[[u8; 32]]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == &y[..]) }

/// The digest list an index would carry
fn parsed(h: H, bs: u64, data: &[u8], digests: &[[u8; 32]]) -> Result<Hashes, String> {
    let l = vec![
        Line { dir: b"/".to_vec(), name: vec![], kind: LKind::Dir, row: 2 },
        Line { dir: b"/".to_vec(), name: b"a".to_vec(), kind: LKind::File { exe: false, size: data.len() as u64, digests: digests.to_vec() }, row: 3 },
    ];
    let text = super::parse::text_of(&l, h, bs);
    let mut p = Parser::new(io::Cursor::new(text)).map_err(|e| e.to_string())?;
    let mut it = p.iter();
    it.next();
    match it.next() {
        Some(Ok(Entry::File { hashes, .. })) => Ok(hashes),
        Some(Ok(e)) => Err(format!("parsed as {:?}", e)),
        Some(Err(e)) => Err(e.to_string()),
        None => Err("no entry".into()),
    }
}

/// Something that is not `data`, and the index of the first block that differs
fn mutate(rng: &mut Rng, data: &[u8], bs: u64) -> (String, Vec<u8>) {
    let n = data.len();
    let b = bs.min(n.max(1) as u64) as usize;
    let nb = n.div_ceil(b).max(1);
    for _ in 0..50 {
        let mut v = data.to_vec();
        let what = match rng.below(16) {
            0 => { if n == 0 { continue; } let i = rng.us(n); v[i] ^= 1 << rng.below(8); format!("a bit of byte {} flipped", i) }
            1 => { if n == 0 { continue; } v[n - 1] ^= 1; "the last byte changed".into() }
            2 => { if n == 0 { continue; } v[0] ^= 0x80; "the first byte changed".into() }
            3 => { v.push(*rng.pick(&[0u8, b'\n', 1])); "a byte appended".into() }
            4 => { if n == 0 { continue; } v.pop(); "the last byte missing".into() }
            5 => { if n == 0 { continue; } let k = rng.us(nb); v.truncate(k * b); format!("cut off after {} blocks", k) }
            6 => { let k = rng.us(nb); let blk: Vec<u8> = data[(k * b).min(n)..((k + 1) * b).min(n)].to_vec(); if blk.is_empty() { continue; } v.extend_from_slice(&blk); format!("block {} once more at the end", k) }
            7 => {
                if nb < 2 { continue; }
                let i = rng.us(nb); let j = rng.us(nb);
                if i == j || (i + 1) * b > n || (j + 1) * b > n { continue; }
                for k in 0..b { v.swap(i * b + k, j * b + k); }
                format!("blocks {} and {} exchanged", i, j)
            }
            8 => { let k = rng.us(nb); let e = ((k + 1) * b).min(n); if k * b >= e { continue; } v.drain(k * b..e); format!("block {} missing", k) }
            9 => { let i = rng.us(n + 1); v.insert(i, *rng.pick(&[0u8, b'a', 0xff])); format!("a byte inserted at {}", i) }
            10 => { if n == 0 { continue; } let i = rng.us(n); v.remove(i); format!("byte {} missing", i) }
            11 => { v.clear(); "empty".into() }
            12 => { let l = n + b; v.resize(l, 0); "a block of zeros more".into() }
            13 => { if n == 0 { continue; } let k = rng.us(nb); let i = (k * b).min(n - 1); v[i] = v[i].wrapping_add(1); format!("first byte of block {} changed", k) }
            14 => { if n == 0 { continue; } let k = rng.us(nb); let i = ((k + 1) * b).min(n) - 1; v[i] = v[i].wrapping_add(1); format!("last byte of block {} changed", k) }
            _ => { if n == 0 { continue; } let l = data.to_vec(); v.extend_from_slice(&l); "everything twice".into() }
        };
        if v != data { return (what, v); }
    }
    let mut v = data.to_vec();
    v.push(7);
    ("a byte appended".into(), v)
}

// ---------------------------------------------------------------- C13

pub static C13: Prop = Prop {
    id: "C13", level: "fault_enumeration",
    rule: "digest lists taken from real scans, from hash_file and from index texts of the model, checked with check_file against the content, against mutations of it (bits, lengths, blocks exchanged, repeated, removed), through readers with scripted chunks and interruptions, from files on disk, and with a read error at a byte position (every position for contents up to 400 bytes, else 12 random ones); non-trivial with at least one block, distinct by digest list and stream",
    quick: 12000, thorough: 400000, quick_s: 90, thorough_s: 600, run: c13,
    assumptions: &["no digest collisions", "the reader gives the same bytes it is scripted to"],
    need: &["equal contents", "different contents", "read errors", "interrupted reads", "entries of scans", "of more than one block"],
};

/// What check_file says when its blake3 state is never reset
fn k1_verdict(hs: &Hashes, bs: u64, stream: &[u8]) -> bool {
    let mut n = 0usize;
    for d in hs.iter() {
        n = (n as u64).saturating_add(bs).min(stream.len() as u64) as usize;
        if H::B3.digest(&stream[..n])[..] != *d { return false; }
    }
    n == stream.len()
}

/// check_file with a scripted reader: the verdict on `stream`, given the list
/// made from `data`. `k1`: the list K1 makes it have.
fn verdict(cx: &mut Ctx, hs: &Hashes, h: H, bs: u64, data: &[u8], stream: &[u8], k1: &[[u8; 32]], what: &str, rng: &mut Rng) -> R {
    let mut s = Src::new(stream, chunks(rng));
    if rng.chance(1, 2) { s.intr = rng.range(2, 6); }
    let r = hs.check_file(&mut s);
    cx.eval();
    cx.count("interrupted reads", s.interrupts);
    let want = stream == data;
    cx.count(if want { "equal contents" } else { "different contents" }, 1);
    match r {
        Err(e) => fail!("{}: {} bytes, block size {}, {}: {}", what, stream.len(), bs, h.name(), e),
        Ok(x) if x == want => Ok(()),
        Ok(x) if h == H::B3 && (same(hs, k1) || same(hs, &cum(h, bs, data))) && x == k1_verdict(hs, bs, stream) =>
            cx.known("K1", format!("{}: a stream of {} bytes is {}, because check_file goes on from the blocks before", what, stream.len(), if x { "accepted" } else { "refused" })),
        Ok(x) => fail!("{}: {} for {} bytes, the list is of {} bytes, block size {}, {} ({} digests)", what, x, stream.len(), data.len(), bs, h.name(), hs.len()),
    }
}

fn faults(cx: &mut Ctx, hs: &Hashes, h: H, bs: u64, data: &[u8], what: &str, rng: &mut Rng) -> R {
    if h == H::B3 && !same(hs, &cum(h, bs, data)) { return Ok(()); }
    let n = data.len();
    let every = n <= 400;
    for i in 0..if every { n + 1 } else { 12 } {
        let at = if every { i } else { match i { 0 => n, 1 => 0, 2 => n - 1, 3 => (bs.min(n as u64)) as usize, _ => rng.us(n + 1) } };
        let kind = *rng.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::InvalidData, ErrorKind::WriteZero]);
        let mut s = Src::new(data, chunks(rng));
        s.fail_at = Some((at, kind));
        if rng.chance(1, 4) { s.intr = 3; }
        let r = hs.check_file(&mut s);
        cx.eval();
        cx.count("read errors", s.faults);
        match r {
            Ok(v) => fail!("{}: read error {:?} at byte {} of {} gives {} (block size {}, {})", what, kind, at, n, v, bs, h.name()),
            Err(e) => ensure!(e.kind() == kind && e.to_string().contains(MARK), "{}: read error {:?} at byte {} of {} is reported as {:?} {}", what, kind, at, n, e.kind(), e),
        }
    }
    // an error after a difference: an error or false
    let (m, v) = mutate(rng, data, bs);
    let mut s = Src::new(&v, chunks(rng));
    s.fail_at = Some((rng.us(v.len() + 1), ErrorKind::Other));
    if let Ok(true) = hs.check_file(&mut s) { fail!("{}: {} and a read error: true", what, m); }
    cx.eval();
    Ok(())
}

fn c13(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    if cx.idx % 12 == 0 { return c13_scan(cx); }
    let h = *rng.pick(&ALL_H);
    let (bs, data) = content(&mut rng);
    let sp = spec(h, bs, &data);
    let (what, hs) = if rng.chance(1, 2) {
        match Hashes::hash_file(h.ht(), bs, &data[..]) {
            Ok((_, hs)) => ("list of hash_file", hs),
            Err(e) => fail!("hash_file of {} bytes: {}", data.len(), e),
        }
    } else {
        // B3: what check_file can accept (K1), and what it should
        let d = if h == H::B3 && rng.chance(3, 4) { cum(h, bs, &data) } else { spec(h, bs, &data) };
        match parsed(h, bs, &data, &d) { Ok(hs) => ("list of an index", hs), Err(e) => fail!("{}", e) }
    };
    let want = data.len() as u64 / bs + (data.len() as u64 % bs != 0) as u64;
    ensure!(hs.len() as u64 == want, "{}: {} digests for {} bytes and block size {}", what, hs.len(), data.len(), bs);
    for _ in 0..2 { verdict(cx, &hs, h, bs, &data, &data, &sp, what, &mut rng)?; }
    for _ in 0..10 {
        let (m, v) = mutate(&mut rng, &data, bs);
        verdict(cx, &hs, h, bs, &data, &v, &sp, &format!("{}, {}", what, m), &mut rng)?;
        cx.nontrivial(hash_bytes(&v) ^ hash_bytes(&data).rotate_left(9) ^ bs ^ h as u64);
    }
    // the list itself has no state
    verdict(cx, &hs, h, bs, &data, &data, &sp, what, &mut rng)?;
    faults(cx, &hs, h, bs, &data, what, &mut rng)?;
    if hs.len() > 1 { cx.count("of more than one block", 1); }
    cx.max("blocks", hs.len() as u64);
    cx.sample(|| format!("{} of {} bytes, block size {}, {}", what, data.len(), bs, h.name()));
    Ok(())
}

fn scanned(cx: &mut Ctx, rng: &mut Rng) -> Result<(util::Cfg, Vec<u8>, Vec<(Rc<Vec<u8>>, PathBuf, Hashes, u64)>), crate::ctx::Violation> {
    let c = util::cfg(rng);
    let mut k = util::knobs(rng);
    k.files_pct = 80; k.dirs_pct = 15; k.other_pct = 0;
    k.max_file = *rng.pick(&[2000usize, 70_000, 300_000]);
    k.nodes = k.nodes.min(20);
    let f = util::forest(cx, &k, 1);
    let sess = util::conditions(rng, false);
    let out = util::scan_ok(cx, &c, &f.roots, &sess)?;
    let mut p = match Parser::new(io::Cursor::new(out.clone())) { Ok(p) => p, Err(e) => fail!("{}", e) };
    let mut files = Vec::new();
    f.merged.walk(&mut Vec::new(), &mut |p, m| {
        for e in &m.entries {
            if let What::File { data, .. } = &e.what {
                let mut q = if p == b"/" { Vec::new() } else { p.to_vec() };
                q.push(b'/');
                q.extend_from_slice(&e.name);
                files.push((q, data.clone()));
            }
        }
    });
    let mut it = files.into_iter();
    let mut res = Vec::new();
    for e in p.iter() {
        match e {
            Ok(Entry::File { path, hashes, size, .. }) => {
                use std::os::unix::ffi::OsStrExt;
                let (q, data) = match it.next() { Some(x) => x, None => fail!("more files in the index than in the tree") };
                ensure!(path.as_os_str().as_bytes() == &q[..], "file {:?} where {:?} is expected", path, show(&q));
                let rel = std::ffi::OsStr::from_bytes(&q[1..]);
                res.push((data, f.roots[0].0.join(rel), hashes, size));
            }
            Ok(_) => {}
            Err(e) => fail!("{}", e),
        }
    }
    Ok((c, out, res))
}

fn c13_scan(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(3);
    let (c, _, files) = scanned(cx, &mut rng)?;
    let mut all = Digests::new(c.h, if c.threaded() { Policy::CumFile } else { Policy::CumAll });
    for (data, disk, hs, size) in &files {
        let k1 = all.file(data, BS);
        ensure!(*size == data.len() as u64, "size {} in the index, {} on disk", size, data.len());
        let what = format!("entry of a scan ({})", c.describe());
        verdict(cx, hs, c.h, BS, data, data, &k1, &what, &mut rng)?;
        if let Ok(f) = std::fs::File::open(disk) {
            match hs.check_file(f) {
                Ok(true) => {}
                Ok(false) if c.h == H::B3 && same(hs, &k1) && !same(hs, &cum(c.h, BS, data)) => cx.known("K1", "a scanned file is refused")?,
                r => fail!("{}: checking the file on disk gives {:?}", what, r),
            }
        }
        for _ in 0..3 {
            let (m, v) = mutate(&mut rng, data, BS);
            verdict(cx, hs, c.h, BS, data, &v, &k1, &format!("{}, {}", what, m), &mut rng)?;
            cx.nontrivial(hash_bytes(&v) ^ hash_bytes(data).rotate_left(9));
        }
        // content of the other files
        let o = &files[rng.us(files.len())].0;
        verdict(cx, hs, c.h, BS, data, o, &k1, &format!("{}, another file", what), &mut rng)?;
        if rng.chance(1, 4) { faults(cx, hs, c.h, BS, data, &what, &mut rng)?; }
        cx.count("entries of scans", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

pub static C14: Prop = Prop {
    id: "C14", level: "fault_enumeration",
    rule: "contents of sizes around multiples of many block sizes, hashed with hash_file through readers with scripted chunks and interruptions and compared with the model and with the list parsed from a scan; with a read error at a byte position (every position for contents up to 400 bytes, else 12 random ones); one stream of more than 2^32 bytes; non-trivial when not empty, distinct by content, block size and hash type",
    quick: 25000, thorough: 600000, quick_s: 90, thorough_s: 600, run: c14,
    assumptions: &["the reference digests use the sha2, blake2 and blake3 crates in one shot"],
    need: &["digests compared", "read errors", "interrupted reads", "lists of scans", "sizes beyond 32 bits"],
};

fn check_list(cx: &mut Ctx, hs: &Hashes, h: H, bs: u64, data: &[u8], what: &str) -> R {
    let want = spec(h, bs, data);
    ensure!(hs.block_size() == bs && hs.hash_type() == h.ht(), "{}: the list says {} {}", what, hs.block_size(), hs.hash_type());
    ensure!(hs.len() == want.len(), "{}: {} digests for {} bytes and block size {}, want {} ({})", what, hs.len(), data.len(), bs, want.len(), h.name());
    let it: Vec<&[u8]> = hs.iter().collect();
    ensure!(it.len() == hs.len(), "{}: iteration gives {} of {} digests", what, it.len(), hs.len());
    for (i, d) in it.iter().enumerate() {
        ensure!(hs.get(i) == Some(*d), "{}: get({}) and iteration differ", what, i);
        ensure!(d.len() == 32, "{}: digest of {} bytes", what, d.len());
    }
    let n = hs.len();
    for i in [n, n + 1, n + 2, 2 * n + 1, usize::MAX, usize::MAX / 32, usize::MAX / 32 + 1, usize::MAX / 31, 1 << 58, 1 << 59, 1 << 60, (1 << 59) + n.saturating_sub(1)] {
        if i < n { continue; }
        ensure!(hs.get(i).is_none(), "{}: get({}) of {} digests gives a value", what, i, n);
    }
    cx.count("digests compared", n as u64);
    if same(hs, &want) { return Ok(()); }
    if h == H::B3 && same(hs, &cum(h, bs, data)) {
        return cx.known("K1", format!("{}: digests of {} bytes with block size {} cover all blocks before them", what, data.len(), bs));
    }
    let i = it.iter().zip(&want).position(|(a, b)| a != &&b[..]).unwrap_or(0);
    fail!("{}: digest {} of {} bytes, block size {}, {} is {}, want {}", what, i, data.len(), bs, h.name(), hex(it[i]), hex(&want[i]))
}

fn hash_of(h: &Hashes) -> u64 { let mut d = DefaultHasher::new(); h.hash(&mut d); d.finish() }

fn c14(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    if cx.idx == 0 { return c14_huge(cx); }
    if cx.idx % 40 == 0 { return c14_scan(cx); }
    let h = *rng.pick(&ALL_H);
    let (bs, data) = content(&mut rng);
    let mut first: Option<Hashes> = None;
    for k in 0..3 {
        let mut s = Src::new(&data, chunks(&mut rng));
        if k > 0 { s.intr = rng.range(2, 6); }
        let (n, hs) = match Hashes::hash_file(h.ht(), bs, &mut s) { Ok(x) => x, Err(e) => fail!("hash_file of {} bytes: {}", data.len(), e) };
        cx.eval();
        cx.count("interrupted reads", s.interrupts);
        ensure!(n == data.len() as u64, "size {} for {} bytes, block size {}, {}", n, data.len(), bs, h.name());
        check_list(cx, &hs, h, bs, &data, "hash_file")?;
        if let Some(ref f) = first {
            ensure!(*f == hs && hash_of(f) == hash_of(&hs) && f.clone() == hs, "two lists of the same content are not equal");
        } else { first = Some(hs); }
    }
    let first = first.unwrap();
    // the list read from an index is the same value
    let d: Vec<[u8; 32]> = first.iter().map(|x| { let mut a = [0u8; 32]; a.copy_from_slice(x); a }).collect();
    match parsed(h, bs, &data, &d) {
        Ok(p) => ensure!(p == first && hash_of(&p) == hash_of(&first), "the list parsed from an index is not equal to the one of hash_file"),
        Err(e) => fail!("{}", e),
    }
    // and a list of other content is not
    let (m, v) = mutate(&mut rng, &data, bs);
    match Hashes::hash_file(h.ht(), bs, &v[..]) {
        Ok((n, o)) => {
            ensure!(n == v.len() as u64, "size {} for {} bytes", n, v.len());
            ensure!(o != first, "lists of different contents ({}) are equal", m);
            check_list(cx, &o, h, bs, &v, "hash_file")?;
        }
        Err(e) => fail!("{}", e),
    }
    let n = data.len();
    let every = n <= 400;
    for i in 0..if every { n + 1 } else { 12 } {
        let at = if every { i } else { match i { 0 => n, 1 => 0, 2 => n - 1, 3 => (bs.min(n as u64)) as usize, _ => rng.us(n + 1) } };
        let kind = *rng.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::InvalidData]);
        let mut s = Src::new(&data, chunks(&mut rng));
        s.fail_at = Some((at, kind));
        if rng.chance(1, 4) { s.intr = 3; }
        match Hashes::hash_file(h.ht(), bs, &mut s) {
            Ok((x, hs)) => fail!("read error {:?} at byte {} of {} gives {} bytes and {} digests", kind, at, n, x, hs.len()),
            Err(e) => ensure!(e.kind() == kind && e.to_string().contains(MARK), "read error {:?} at byte {} of {} is reported as {:?} {}", kind, at, n, e.kind(), e),
        }
        cx.eval();
        cx.count("read errors", s.faults);
    }
    if n > 0 { cx.nontrivial(hash_bytes(&data) ^ bs ^ (h as u64) << 3); }
    cx.seen("block sizes", &bs.to_string());
    cx.max("digests in a list", first.len() as u64);
    cx.sample(|| format!("{} bytes, block size {}, {}", n, bs, h.name()));
    Ok(())
}

fn c14_scan(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(3);
    let (c, _, files) = scanned(cx, &mut rng)?;
    for (data, disk, hs, _) in &files {
        let f = match std::fs::File::open(disk) { Ok(f) => f, Err(_) => continue };
        let (n, o) = match Hashes::hash_file(c.h.ht(), BS, f) { Ok(x) => x, Err(e) => fail!("{}", e) };
        ensure!(n == data.len() as u64, "size {} for a file of {} bytes", n, data.len());
        check_list(cx, &o, c.h, BS, data, "hash_file of a file")?;
        cx.eval();
        cx.count("lists of scans", 1);
        if *hs != o {
            let mut k = c.h == H::B3 && !c.threaded();
            k &= same(&o, &cum(c.h, BS, data));
            ensure!(k, "the list of a scan ({}) differs from hash_file for a file of {} bytes", c.describe(), data.len());
            cx.known("K1", "the list of a synchronous blake3 scan goes on from other files")?;
        }
        if n > 0 { cx.nontrivial(hash_bytes(data) ^ (c.h as u64) << 3); }
    }
    Ok(())
}

struct Zeros { left: u64, tick: *const Ctx }
impl Read for Zeros {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (b.len() as u64).min(self.left) as usize;
        for x in &mut b[..n] { *x = 0; }
        self.left -= n as u64;
        if self.left % (1 << 26) < 10_000 { unsafe { (*self.tick).tick(); } }
        Ok(n)
    }
}

fn c14_huge(cx: &mut Ctx) -> R {
    let n = (1u64 << 32) + 4_097;
    let bs = 1u64 << 33;
    let z = Zeros { left: n, tick: cx };
    let (got, hs) = match Hashes::hash_file(H::B3.ht(), bs, z) { Ok(x) => x, Err(e) => fail!("{}", e) };
    cx.eval();
    ensure!(got == n, "size {} for a stream of {} bytes", got, n);
    let mut m = blake3::Hasher::new();
    let zeros = vec![0u8; 1 << 20];
    let mut left = n;
    while left > 0 { let k = left.min(1 << 20); m.update(&zeros[..k as usize]); left -= k; cx.tick(); }
    ensure!(hs.len() == 1 && hs.get(0) == Some(&m.finalize().as_bytes()[..]), "digest of a block of {} bytes", n);
    match hs.check_file(Zeros { left: n, tick: cx }) { Ok(true) => {}, r => fail!("check of {} bytes gives {:?}", n, r) }
    match hs.check_file(Zeros { left: n - (1 << 32), tick: cx }) { Ok(false) => {}, r => fail!("check of {} bytes less 2^32 gives {:?}", n, r) }
    cx.count("sizes beyond 32 bits", 1);
    Ok(())
}
