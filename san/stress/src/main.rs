//! Workloads for runs under ThreadSanitizer, AddressSanitizer and Miri.
//! stress SEED FROM TO DIR [small|big [KINDS]]
//! Only std and the crate under test; nothing here orders threads with each
//! other more than the code under test does.
use std::cell::Cell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::{self, BufRead, Cursor, Read, Seek, SeekFrom, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

use dir_signature::v1::{self, merge::{FileMergeBuilder, MergedSignatures}, Emitter, Entry, EntryKind, Hashes, Parser};
use dir_signature::{get_hash, HashType, ScannerConfig};

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    fn chance(&mut self, a: u64, b: u64) -> bool { self.below(b) < a }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
    fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}

#[derive(Default)]
struct Seen {
    scans: u64, scans_ok: u64, scans_err: u64, files: u64, parsed: u64, parse_errors: u64, merged: u64, emitted: u64,
    hashed: u64, strings: u64, events: u64, traces: HashSet<u64>, results: HashSet<u64>,
}

fn hash_of<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }

fn types() -> [HashType; 3] { [HashType::sha512_256(), HashType::blake2b_256(), HashType::blake3_256()] }

fn name(r: &mut Rng) -> Vec<u8> {
    let max = if r.chance(1, 20) { 250 } else { 12 };
    let n = 1 + r.us(max);
    let mut v: Vec<u8> = if r.chance(1, 2) { (0..n).map(|_| *r.pick(b"abcXYZ019._- \\~")).collect() } else { r.bytes(n) };
    for b in v.iter_mut() { if *b == 0 || *b == b'/' { *b = b'q'; } }
    if v == b"." || v == b".." { v.push(b'x'); }
    v
}

/// every path made, files first
fn tree(r: &mut Rng, root: &Path, small: bool) -> (Vec<PathBuf>, u64) {
    let mut dirs = vec![root.to_path_buf()];
    let mut files = Vec::new();
    let n = if small { 2 + r.us(7) } else { *r.pick(&[1usize, 5, 20, 60, 150]) };
    let mut count = 0;
    for _ in 0..n {
        let d = r.pick(&dirs).clone();
        let p = d.join(std::ffi::OsString::from_vec(name(r)));
        if p.as_os_str().len() > 3000 || fs::symlink_metadata(&p).is_ok() { continue; }
        match r.below(10) {
            0 | 1 | 2 => { fs::create_dir(&p).unwrap(); dirs.push(p); }
            3 => { std::os::unix::fs::symlink(std::ffi::OsString::from_vec(name(r)), &p).unwrap(); }
            _ => {
                let len = if small { if r.chance(1, 200) { 32769 } else { r.us(200) } } else { if r.chance(1, 40) { *r.pick(&[2_100_000usize, 2_097_152, 4_194_305, 5_000_000]) } else { *r.pick(&[0usize, 1, 100, 32767, 32768, 32769, 65536, 100_001, 300_000]) } };
                let b = r.next() as u8;
                fs::write(&p, vec![b; len]).unwrap();
                files.push(p);
                count += 1;
            }
        }
    }
    files.extend(dirs.into_iter().skip(1));
    (files, count)
}

struct Out { data: Vec<u8>, fail: Option<usize>, spin: u64, zero: bool }
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        for _ in 0..self.spin { std::hint::spin_loop(); }
        if let Some(f) = self.fail {
            if self.data.len() >= f { return if self.zero { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "full")) }; }
            let n = b.len().min(f - self.data.len());
            self.data.extend_from_slice(&b[..n]);
            return Ok(n);
        }
        self.data.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

struct In<'a> { d: &'a [u8], pos: usize, step: usize, fail: Option<usize>, intr: Cell<u64> }
impl<'a> In<'a> {
    fn new(d: &'a [u8], r: &mut Rng) -> In<'a> {
        In { d, pos: 0, step: *r.pick(&[1usize, 2, 7, 33, 1000, 1 << 20]), fail: if r.chance(1, 5) { Some(r.us(d.len() + 1)) } else { None }, intr: Cell::new(r.below(5)) }
    }
    fn check(&self) -> io::Result<()> {
        let i = self.intr.get();
        self.intr.set(i + 1);
        if i % 5 == 4 { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        if let Some(f) = self.fail { if self.pos >= f { return Err(io::Error::new(io::ErrorKind::Other, "broken")); } }
        Ok(())
    }
}
impl<'a> Read for In<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.check()?;
        let n = b.len().min(self.step).min(self.d.len() - self.pos);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl<'a> BufRead for In<'a> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.check()?;
        Ok(&self.d[self.pos..self.d.len().min(self.pos + self.step)])
    }
    fn consume(&mut self, n: usize) { self.pos += n; assert!(self.pos <= self.d.len()); }
}
impl<'a> Seek for In<'a> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let p = match s { SeekFrom::Start(n) => n as i64, SeekFrom::End(n) => self.d.len() as i64 + n, SeekFrom::Current(n) => self.pos as i64 + n };
        if p < 0 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek")); }
        self.pos = (p as usize).min(self.d.len());
        Ok(p as u64)
    }
}

/// A str that isn't UTF-8 is a broken invariant no sanitizer looks for
fn text<T: std::fmt::Debug>(x: &T, seen: &mut Seen) {
    let mut s = String::new();
    write!(s, "{:?}", x).unwrap();
    valid(&s, seen);
}
fn shown<T: std::fmt::Display>(x: &T, seen: &mut Seen) {
    let mut s = String::new();
    write!(s, "{}", x).unwrap();
    valid(&s, seen);
}
fn valid(s: &str, seen: &mut Seen) {
    let b = std::hint::black_box(s.as_bytes());
    assert!(std::str::from_utf8(b).is_ok(), "VH: a str that is not UTF-8: {:?}", b);
    seen.strings += 1;
}
/// look at every byte, so that uninitialised ones are noticed
fn touch(b: &[u8]) -> u64 { let mut x = 0u64; for v in b { x = x.wrapping_mul(31).wrapping_add(*v as u64); if *v == 77 { x ^= 1; } } FP.with(|f| f.set(f.get().rotate_left(5) ^ x)); std::hint::black_box(x) }
thread_local! { static FP: Cell<u64> = Cell::new(0); }

fn config(r: &mut Rng, roots: &[PathBuf], threads: usize) -> ScannerConfig {
    let mut c = ScannerConfig::new();
    c.hash(*r.pick(&types())).threads(threads);
    if r.chance(1, 2) { c.queue_size(*r.pick(&[0usize, 1, 2, 5, 100])); }
    for p in roots { c.add_dir(p, "/"); }
    if r.chance(1, 4) { c.print_progress(); }
    c
}

fn scan(c: &ScannerConfig, out: &mut Out, seen: &mut Seen) -> bool {
    seen.scans += 1;
    let r = v1::scan(c, out);
    touch(&out.data);
    match r {
        Ok(()) => { seen.scans_ok += 1; true }
        Err(e) => { text(&e, seen); shown(&e, seen); seen.scans_err += 1; false }
    }
}

fn entry(e: &Entry, seen: &mut Seen) {
    // Debug output is slow under Miri
    if !cfg!(miri) || seen.parsed % 8 == 0 { text(e, seen); }
    let k = e.kind();
    if !cfg!(miri) || seen.parsed % 8 == 2 { text(&k, seen); }
    touch(k.path().as_os_str().as_bytes());
    touch(e.path().as_os_str().as_bytes());
    match e {
        Entry::File { hashes, .. } => {
            if !cfg!(miri) || seen.parsed % 8 == 1 { text(hashes, seen); }
            for h in hashes.iter() { touch(h); }
            for i in 0..hashes.len() + 2 { if let Some(h) = hashes.get(i) { touch(h); } }
        }
        Entry::Link(_, d) => { touch(d.as_os_str().as_bytes()); }
        Entry::Dir(_) => {}
    }
    seen.parsed += 1;
}

fn parse(ix: &[u8], r: &mut Rng, seen: &mut Seen) {
    let mut p = match Parser::new(In::new(ix, r)) {
        Ok(p) => p,
        Err(e) => { text(&e, seen); shown(&e, seen); seen.parse_errors += 1; return; }
    };
    let h = p.get_header();
    text(&h, seen); valid(h.get_version(), seen); text(&h.get_hash_type(), seen);
    let mut targets: Vec<EntryKind<PathBuf>> = Vec::new();
    let seek = r.chance(1, 2);
    {
        let mut it = p.iter();
        let mut errors = 0;
        for _ in 0..100_000 {
            let x = if seek && r.chance(1, 2) {
                let t = if targets.is_empty() || r.chance(1, 3) {
                    let mut v = b"/".to_vec(); v.extend(name(r));
                    let v = PathBuf::from(std::ffi::OsString::from_vec(v));
                    if r.chance(1, 2) { EntryKind::Dir(v) } else { EntryKind::File(v) }
                } else { r.pick(&targets).cloned() };
                it.advance(&t)
            } else { it.next() };
            match x {
                None => break,
                Some(Ok(e)) => { entry(&e, seen); targets.push(e.kind().cloned()); if targets.len() > 50 { targets.remove(0); } }
                Some(Err(e)) => { text(&e, seen); shown(&e, seen); seen.parse_errors += 1; errors += 1; if errors > 30 { break; } }
            }
        }
    }
    if r.chance(1, 2) { let mut it = p.iter(); if let Some(x) = it.next() { text(&x, seen); } }
    touch(&p.into_reader().d[..0]);
}

fn mutate(ix: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut v = ix.to_vec();
    for _ in 0..r.below(6) {
        if v.is_empty() { break; }
        let i = r.us(v.len());
        match r.below(11) {
            // a digest with bytes that are no digits, or of another length
            8 | 9 => if let Some(p) = v[i..].windows(2).position(|w| w[0] == b' ' && w[1].is_ascii_hexdigit()) {
                let p = i + p + 1;
                let e = (p + 64).min(v.len());
                let n = r.us(20);
                let mut x = v[p..e].to_vec();
                if r.chance(1, 2) { x.truncate(n); }
                for _ in 0..1 + r.below(4) { if !x.is_empty() { let k = r.us(x.len()); x[k] = *r.pick(b"\xff\x80\xc3\xf0gG\\"); } }
                v.splice(p..e, x);
            },
            0 => v[i] = r.next() as u8,
            1 => { v.remove(i); }
            2 => { let b = *r.pick(b"\n \\x\xff\x80/0gG\x00\t\r"); v.insert(i, b); }
            3 => v.truncate(i),
            4 => { let j = i + r.us(v.len() - i); let part = v[i..j].to_vec(); let at = r.us(v.len()); v.splice(at..at, part); }
            5 => { let t: &[u8] = *r.pick(&[&b"\\x"[..], b"\\xg0", b"\\", b"  a f 99999999999999999999 ", b"  a f 18446744073709551615\n", b"DIRSIGNATURE.v1 ", b"block_size=0", b"  \xc3\n", b"/\xff\xfe\n", b"  x s \\xff\n", b"\\x80\\xc3\\"]); v.splice(i..i, t.iter().copied()); }
            6 => { let e = (i + 64).min(v.len()); for b in &mut v[i..e] { *b = b"0123456789abcdefABCDEFxyz\xff"[(*b % 26) as usize]; } }
            7 => { let e = (i + 1 + r.us(4)).min(v.len()); v.drain(i..e); }
            _ => { v[i] ^= 1 << r.below(8); }
        }
    }
    v
}

/// An index written out without a scan (hashing is slow under Miri); the
/// digests and the footer are made up
fn written(r: &mut Rng) -> Vec<u8> {
    fn esc(v: &[u8], o: &mut Vec<u8>) {
        for &b in v { if b <= 0x20 || b >= 0x7f || b == b'\\' { o.extend(format!("\\x{:02x}", b).bytes()); } else { o.push(b); } }
    }
    let t = *r.pick(&["sha512/256", "blake2b/256", "blake3/256"]);
    let mut o = format!("DIRSIGNATURE.v1 {} block_size={}\n", t, r.pick(&[32768u64, 1, 100, 4096])).into_bytes();
    let hex = |r: &mut Rng, o: &mut Vec<u8>| { let x = format!("{:016x}{:016x}", r.next(), r.next()); o.extend(x.as_bytes()); o.extend(x.as_bytes()); };
    let bs: u64 = String::from_utf8_lossy(&o).trim().rsplit('=').next().unwrap().parse().unwrap();
    let mut dirs: Vec<Vec<Vec<u8>>> = vec![vec![]];
    for _ in 0..r.below(4) { let mut d = r.pick(&dirs).clone(); d.push(name(r)); if !dirs.contains(&d) { dirs.push(d); } }
    dirs.sort();
    for d in dirs {
        if d.is_empty() { o.push(b'/'); }
        for c in &d { o.push(b'/'); esc(c, &mut o); }
        o.push(b'\n');
        let mut names: Vec<Vec<u8>> = (0..r.below(5)).map(|_| name(r)).collect();
        names.sort();
        names.dedup();
        for n in names {
            o.extend(b"  ");
            esc(&n, &mut o);
            if r.chance(1, 3) { o.extend(b" s "); esc(&name(r), &mut o); } else {
                let k = r.below(4);
                let size = if k == 0 { 0 } else { (k - 1) * bs + 1 + r.below(bs) };
                o.extend(format!(" {} {}", r.pick(&["f", "x"]), size).bytes());
                for _ in 0..k { o.push(b' '); hex(r, &mut o); }
            }
            o.push(b'\n');
        }
    }
    hex(r, &mut o);
    o.push(b'\n');
    o
}

fn index(r: &mut Rng, dir: &Path, small: bool, seen: &mut Seen) -> Vec<u8> {
    if small && !r.chance(1, 8) { return written(r); }
    let root = dir.join(format!("i{}", r.next()));
    fs::create_dir(&root).unwrap();
    let (_, n) = tree(r, &root, small);
    seen.files += n;
    let mut c = ScannerConfig::new();
    c.hash(*r.pick(&types())).threads(0).add_dir(&root, "/");
    let mut o = Out { data: vec![], fail: None, spin: 0, zero: false };
    assert!(scan(&c, &mut o, seen), "VH: scan fails");
    o.data
}

fn case(n: u64, seed: u64, dir: &Path, small: bool, seen: &mut Seen) {
    let mut r = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ n.wrapping_mul(0x9e3779b97f4a7c15));
    r.next();
    let d = dir.join(format!("c{}", n));
    fs::create_dir(&d).unwrap();
    #[cfg(feature = "mock")] openat::trace_reset();
    match n % 8 {
        // scans with threads that succeed, fail to write, or meet a changing tree
        0 | 1 | 2 | 3 => {
            let mut roots = Vec::new();
            let mut paths = Vec::new();
            for i in 0..1 + r.below(2) {
                let p = d.join(format!("r{}", i));
                fs::create_dir(&p).unwrap();
                let (f, k) = tree(&mut r, &p, small);
                seen.files += k;
                paths.extend(f);
                roots.push(p);
            }
            let threads = if small { 2 + r.us(2) } else { *r.pick(&[2usize, 3, 4, 8]) };
            let c = config(&mut r, &roots, threads);
            let mut o = Out { data: vec![], fail: None, spin: r.below(300), zero: r.chance(1, 4) };
            match n % 4 {
                0 => { assert!(scan(&c, &mut o, seen), "VH: scan fails"); seen.results.insert(hash_of(&o.data)); }
                1 => { o.fail = Some(r.us(if small { 400 } else { 4000 })); scan(&c, &mut o, seen); }
                2 => {
                    let mut q = r.clone();
                    std::thread::scope(|s| {
                        s.spawn(move || {
                            for _ in 0..if small { 6 } else { 60 } {
                                if paths.is_empty() { break; }
                                let p = q.pick(&paths).clone();
                                match q.below(5) {
                                    0 => { let _ = fs::remove_file(&p); }
                                    1 => { let _ = fs::write(&p, vec![1u8; q.us(if small { 200 } else { 70_000 })]); }
                                    2 => { let _ = fs::remove_dir_all(&p); }
                                    3 => { let _ = fs::rename(&p, q.pick(&paths)); }
                                    _ => { let _ = fs::create_dir(&p); }
                                }
                                for _ in 0..q.below(2000) { std::hint::spin_loop(); }
                            }
                        });
                        let c = &c;
                        let o = &mut o;
                        scan(c, o, seen);
                    });
                }
                _ => {
                    // one configuration, several scans at once
                    let mut more: Vec<Seen> = Vec::new();
                    let k = if small { 2 } else { 3 };
                    std::thread::scope(|s| {
                        let c = &c;
                        let h: Vec<_> = (0..k).map(|i| {
                            let fail = if i == 1 { Some(300) } else { None };
                            s.spawn(move || {
                                let mut seen = Seen::default();
                                let mut o = Out { data: vec![], fail, spin: 0, zero: false };
                                scan(c, &mut o, &mut seen);
                                seen.results.insert(hash_of(&o.data));
                                seen
                            })
                        }).collect();
                        for x in h { more.push(x.join().expect("VH: a scan panics")); }
                    });
                    for m in more { seen.scans += m.scans; seen.scans_ok += m.scans_ok; seen.scans_err += m.scans_err; seen.strings += m.strings; seen.results.extend(m.results); }
                }
            }
            #[cfg(feature = "mock")] {
                let t = openat::trace();
                seen.events += t.len() as u64;
                seen.traces.insert(hash_of(&t));
            }
        }
        // parsing, valid and not
        4 | 5 => {
            let ix = index(&mut r, &d, small, seen);
            parse(&ix, &mut r, seen);
            for _ in 0..if small { 3 } else { 40 } { let m = mutate(&ix, &mut r); parse(&m, &mut r, seen); }
            for k in 0..3 {
                let v = if k == 0 { ix.clone() } else { mutate(&ix, &mut r) };
                match get_hash(&mut In::new(&v, &mut r)) { Ok(h) => { touch(&h); } Err(e) => { text(&e, seen); shown(&e, seen); } }
            }
        }
        // merging and emitting
        6 => {
            let k = 1 + r.us(3);
            let ixs: Vec<Vec<u8>> = (0..k).map(|_| { let i = index(&mut r, &d, small, seen); if r.chance(1, 4) { mutate(&i, &mut r) } else { i } }).collect();
            let parsers: Vec<_> = ixs.iter().enumerate().filter_map(|(i, x)| Parser::new(In::new(x, &mut r)).ok().map(|p| (i, p))).collect();
            if let Ok(mut m) = MergedSignatures::new(parsers) {
                let mut it = m.iter();
                let mut bad = 0;
                for step in 0..10_000 {
                    let x = if step % 7 == 3 { let mut v = b"/".to_vec(); v.extend(name(&mut r)); Some(it.advance(&EntryKind::File(PathBuf::from(std::ffi::OsString::from_vec(v))))) } else { it.next() };
                    let v = match x { Some(v) => v, None => break };
                    for (k, e) in v {
                        seen.merged += 1;
                        assert!(*k < ixs.len());
                        match e { Ok(e) => entry(&e, seen), Err(e) => { text(&e, seen); shown(&e, seen); bad += 1; } }
                    }
                    if bad > 40 { break; }
                }
            }
            for (i, x) in ixs.iter().enumerate() { fs::write(d.join(format!("s{}", i)), x).unwrap(); }
            let mut b = FileMergeBuilder::new();
            for i in 0..k { b.add(&format!("base{}", i), d.join(format!("s{}", i))); }
            match b.finalize() {
                Ok(mut m) => for v in m.iter().take(2000) { for (p, e) in v { text(&p, seen); match e { Ok(e) => entry(&e, seen), Err(e) => text(&e, seen) } } },
                Err(e) => { text(&e, seen); shown(&e, seen); }
            }
            for x in &ixs {
                let mut p = match Parser::new(Cursor::new(&x[..])) { Ok(p) => p, Err(_) => continue };
                let h = p.get_header();
                let mut o = Out { data: vec![], fail: if r.chance(1, 4) { Some(r.us(x.len() + 1)) } else { None }, spin: 0, zero: false };
                {
                    let mut em = match Emitter::new(h.get_hash_type(), h.get_block_size(), &mut o) { Ok(e) => e, Err(e) => { text(&e, seen); continue } };
                    let mut first = true;
                    for e in p.iter().take(5000) {
                        let e = match e { Ok(e) => e, Err(_) => break };
                        if first && !matches!(e, Entry::Dir(_)) { break; }
                        first = false;
                        let x = match &e {
                            Entry::Dir(p) => em.start_dir(p),
                            Entry::Link(p, t) => em.add_symlink(p.file_name().unwrap(), t),
                            Entry::File { path, exe, size, hashes } => em.add_file(path.file_name().unwrap(), *exe, *size, hashes),
                        };
                        seen.emitted += 1;
                        if x.is_err() { break; }
                    }
                    if let Err(e) = em.finish() { text(&e, seen); }
                }
                touch(&o.data);
            }
        }
        // hashes of files
        _ => {
            for _ in 0..if small { 2 } else { 20 } {
                let bs = if small { *r.pick(&[60u64, 100, 32768]) } else { *r.pick(&[1u64, 7, 100, 4096, 32768]) };
                let len = if small { r.us(300) } else { r.us(if bs < 100 { 2000 } else { 100_000 }) };
                let data = r.bytes(len);
                let t = *r.pick(&types());
                match Hashes::hash_file(t, bs, In::new(&data, &mut r)) {
                    Ok((_, h)) => {
                        for x in h.iter() { touch(x); }
                        text(&h, seen); assert!(h == h);
                        let ok = h.check_file(In::new(&data, &mut r));
                        text(&ok, seen);
                        let _ = h.check_file(&mutate(&data, &mut r)[..]);
                        seen.hashed += 1;
                    }
                    Err(e) => text(&e, seen),
                }
                text(&t, seen); shown(&t, seen);
                text(&"nope".parse::<HashType>(), seen);
            }
        }
    }
    fs::remove_dir_all(&d).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, from, to): (u64, u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let dir = PathBuf::from(&a[4]);
    let small = a.get(5).map(|s| s == "small").unwrap_or(false);
    let kinds = a.get(6).map(|s| s.as_str()).unwrap_or("01234567").to_string();
    let mut seen = Seen::default();
    let mut cases = 0;
    let until: u64 = std::env::var("VH_UNTIL").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    for n in from..to {
        if !kinds.contains(char::from(b'0' + (n % 8) as u8)) { continue; }
        if std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() > until { break; }
        cases += 1;
        eprintln!("\n@case {}", n);
        FP.with(|f| f.set(n % 8));
        case(n, seed, &dir, small, &mut seen);
        println!("@done {} {:x}", n, FP.with(|f| f.get()));
    }
    println!("@seen cases={} scans={} scans_ok={} scans_err={} files={} parsed={} parse_errors={} merged={} emitted={} hashed={} strings={} events={} results={}",
        cases, seen.scans, seen.scans_ok, seen.scans_err, seen.files, seen.parsed, seen.parse_errors, seen.merged, seen.emitted, seen.hashed, seen.strings, seen.events, seen.results.len());
    let t: Vec<String> = seen.traces.iter().map(|t| format!("{:x}", t)).collect();
    println!("@traces {}", t.join(" "));
    // the pool doesn't wait for its threads
    std::thread::sleep(std::time::Duration::from_millis(if small { 50 } else { 20 }));
}
