//! C01 - C05: what a scan writes.
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

use dir_signature::v1;

use crate::ctx::{Ctx, Prop, R};
use crate::gen::{self, describe};
use crate::io::{chunks, Fault, Sink};
use crate::model::*;
use crate::props::util::*;
use crate::shim::{Act, Sess, K};
use crate::{ensure, fail};

const RULE_TREE: &str = "seeded random directory trees (odd and hostile names, sizes around block borders, all permissions, links, hard links, pipes, sockets, overlapping sources) plus scripted extreme trees, written to a tmpfs and scanned by the real library with random hash, thread count, queue size, progress, listing order, entry-type reporting, delays and short reads; a case is non-trivial when the tree has at least one entry, distinct by tree and configuration";

// ---------------------------------------------------------------- C01

pub static C01: Prop = Prop {
    id: "C01", level: "exploration", rule: RULE_TREE,
    quick: 9000, thorough: 270000, quick_s: 45, thorough_s: 600, run: c01,
    assumptions: &["the tree is not changed during the scan", "tmpfs (or the file system of the scratch folder) reports what was created", "runs as root, so permissions do not hide anything"],
    need: &["entries compared", "directories compared", "links compared", "of them by worker threads"],
};

type Flat = BTreeMap<(Vec<u8>, Vec<u8>, String), i64>;

fn flat_model(m: &Merged) -> Flat {
    let mut f = Flat::new();
    m.walk(&mut Vec::new(), &mut |p, m| {
        *f.entry((p.to_vec(), vec![], "d".into())).or_insert(0) += 1;
        for e in &m.entries {
            let k = match &e.what {
                What::File { exe, data } => format!("{} {}", if *exe { "x" } else { "f" }, data.len()),
                What::Link(t) => format!("s {}", hex(t)),
            };
            *f.entry((p.to_vec(), e.name.clone(), k)).or_insert(0) += 1;
        }
    });
    f
}

fn flat_index(ix: &Index) -> Flat {
    let mut f = Flat::new();
    for l in &ix.lines {
        let k = match &l.kind {
            LKind::Dir => "d".to_string(),
            LKind::File { exe, size, .. } => format!("{} {}", if *exe { "x" } else { "f" }, size),
            LKind::Link(t) => format!("s {}", hex(t)),
        };
        *f.entry((l.dir.clone(), l.name.clone(), k)).or_insert(0) += 1;
    }
    f
}

fn flat_diff(got: &Flat, want: &Flat) -> Option<String> {
    for (k, n) in want {
        let g = got.get(k).cloned().unwrap_or(0);
        if g < *n { return Some(format!("missing: directory {:?} name {:?} {} ({} of {})", show(&k.0), show(&k.1), k.2.chars().take(80).collect::<String>(), g, n)); }
    }
    for (k, n) in got {
        let w = want.get(k).cloned().unwrap_or(0);
        if *n > w { return Some(format!("not in the tree: directory {:?} name {:?} {} ({} instead of {})", show(&k.0), show(&k.1), k.2.chars().take(80).collect::<String>(), n, w)); }
    }
    None
}

fn c01(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let c = cfg(&mut rng);
    let cut = rng.chance(1, 3);
    let sess = conditions(&mut rng, cut);
    if cx.idx == SPECIALS { return c01_huge(cx); }
    if cx.idx > SPECIALS && cx.idx <= SPECIALS + 40 { return c01_prefix(cx); }
    let (what, f) = if cx.idx < SPECIALS {
        let (n, t) = special(cx.idx, &mut rng).unwrap();
        (n, put(cx, t))
    } else if cx.idx > SPECIALS + 40 && cx.idx <= SPECIALS + 40 + VAST {
        let (n, t) = vast(cx.idx - SPECIALS - 41);
        cx.count("vast trees", 1);
        (n, put(cx, t))
    } else {
        let k = knobs(&mut rng);
        let sources = if rng.chance(1, 12) { 14 } else { 3 };
        ("random".to_string(), forest(cx, &k, sources))
    };
    cx.max("sources", f.roots.len() as u64);
    let mut roots = f.roots.clone();
    // other ways to name the same source
    for r in roots.iter_mut() {
        match rng.below(8) {
            0 => r.0 = r.0.join("."),
            1 => r.1 = PathBuf::from("//"),
            2 => { let mut s = r.0.clone().into_os_string(); s.push("/"); r.0 = PathBuf::from(s); }
            3 => {
                let d = cx.dir();
                std::os::unix::fs::symlink(&r.0, d.join("source")).expect("harness: symlink");
                r.0 = d.join("source");
            }
            4 => r.0 = PathBuf::from("..").join(r.0.parent().unwrap().file_name().unwrap()).join(r.0.file_name().unwrap()),
            _ => {}
        }
    }
    std::env::set_current_dir(&cx.scratch).expect("harness: chdir");
    let out = scan_ok(cx, &c, &roots, &sess)?;
    std::env::set_current_dir("/").expect("harness: chdir");
    check_c01(cx, &out, &f.merged, &format!("{}; {}", what, c.describe()))?;
    if f.merged.size().1 > 0 { cx.nontrivial(fingerprint(&f.merged, &c.describe())); }
    cx.sample(|| format!("{}; {}; {} source(s)", describe(&f.merged), c.describe(), f.roots.len()));
    // the same tree again, synchronously, if threads were used (and the other way round)
    if cx.idx < SPECIALS {
        for threads in [0usize, 5] {
            let c2 = Cfg { threads, ..c.clone() };
            let s2 = conditions(&mut rng, false);
            let out = scan_ok(cx, &c2, &f.roots, &s2)?;
            check_c01(cx, &out, &f.merged, &format!("{}; {}", what, c2.describe()))?;
            cx.nontrivial(fingerprint(&f.merged, &c2.describe()));
        }
    }
    Ok(())
}

fn check_c01(cx: &mut Ctx, out: &[u8], m: &Merged, what: &str) -> R {
    let ix = match read_index(out, false) {
        Ok(i) => i,
        Err(b) => fail!("the index can't be read: line {}: {} ({})", b.row, b.msg, what),
    };
    let (d, e) = m.size();
    cx.count("directories compared", d as u64);
    cx.count("entries compared", e as u64);
    cx.count("links compared", ix.lines.iter().filter(|l| matches!(l.kind, LKind::Link(_))).count() as u64);
    cx.max("entries in one directory", m.max_listing() as u64);
    cx.max("depth", m.depth() as u64);
    if let Some(x) = flat_diff(&flat_index(&ix), &flat_model(m)) { fail!("{} ({})", x, what); }
    Ok(())
}

fn c01_huge(cx: &mut Ctx) -> R {
    let d = cx.dir();
    let size = (1u64 << 32) + 70_001;
    sparse(&d, "huge", size, &[]);
    sparse(&d, "small", 3, &[]);
    for threads in [0usize, 2] {
        let c = Cfg { h: H::B3, threads, queue: None, progress: false };
        let out = {
            let conf = config(&c, &[(d.clone(), PathBuf::from("/"))]);
            let mut s = Sink::plain();
            cx.tick();
            if let Err(e) = v1::scan(&conf, &mut s) { fail!("scan of a file of {} bytes fails: {}", size, e); }
            cx.eval();
            s.data
        };
        let ix = match read_index(&out, false) { Ok(i) => i, Err(b) => fail!("file of {} bytes: line {}: {}", size, b.row, b.msg) };
        let got: Vec<(Vec<u8>, u64)> = ix.lines.iter().filter_map(|l| match l.kind {
            LKind::File { size, .. } => Some((l.name.clone(), size)), _ => None }).collect();
        ensure!(got == vec![(b"huge".to_vec(), size), (b"small".to_vec(), 3)], "files of {} and 3 bytes are listed as {:?}", size, got);
        cx.max("largest file", size);
        cx.count("entries compared", 2);
    }
    Ok(())
}

/// Sources placed at other prefixes (known finding K3: they are dropped)
fn c01_prefix(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(3);
    let k = gen::Knobs { nodes: 12, max_file: 2000, ..Default::default() };
    let a = gen::tree(&mut rng, &k);
    let b = gen::overlapping(&mut rng, &a, &k);
    let mut f = put(cx, vec![a.clone(), b.clone()]);
    let prefix: Vec<&[u8]> = match rng.below(3) { 0 => vec![b"usr"], 1 => vec![b"usr", b"share"], _ => vec![b"a b"] };
    let mut p = String::new();
    for x in &prefix { p.push('/'); p.push_str(std::str::from_utf8(x).unwrap()); }
    f.roots[1].1 = PathBuf::from(&p);
    let only = rng.chance(1, 4);
    let mut full = Merged::default();
    let mut part = Merged::default();
    if !only { full.add(&a, 0); part.add(&a, 0); }
    full.at(&prefix).add(&b, 1);
    let roots = if only { f.roots[1..].to_vec() } else { f.roots.clone() };
    let c = cfg(&mut rng);
    let mut s = Sink::plain();
    let r = scan(cx, &c, &roots, &mut s, &Sess::new())?;
    cx.nontrivial(fingerprint(&full, &p));
    match r {
        Err(v1::Error::NoRootDirectory) if only => return cx.known("K3", format!("a source at {} alone: NoRootDirectory", p)),
        Err(e) => fail!("scan with a source at {} fails: {}", p, e),
        Ok(()) => {}
    }
    let ix = match read_index(&s.data, false) { Ok(i) => i, Err(b) => fail!("line {}: {}", b.row, b.msg) };
    let got = flat_index(&ix);
    cx.count("scans with prefixes", 1);
    if flat_diff(&got, &flat_model(&full)).is_none() { return Ok(()); }
    if flat_diff(&got, &flat_model(&part)).is_none() {
        return cx.known("K3", format!("a source at prefix {} is left out of the index", p));
    }
    fail!("with a source at {}: {}", p, flat_diff(&got, &flat_model(&part)).unwrap())
}

// ---------------------------------------------------------------- C02

pub static C02: Prop = Prop {
    id: "C02", level: "exploration", rule: RULE_TREE,
    quick: 2500, thorough: 40000, quick_s: 45, thorough_s: 600, run: c02,
    assumptions: &["the reference digests use the sha2, blake2 and blake3 crates in one shot", "no digest collisions"],
    need: &["digests compared", "of them by worker threads", "files of more than one block", "files rewritten between scans", "calls with injected faults or short reads"],
};

fn datas(m: &Merged) -> BTreeMap<(Vec<u8>, Vec<u8>), Vec<Rc<Vec<u8>>>> {
    let mut map: BTreeMap<(Vec<u8>, Vec<u8>), Vec<Rc<Vec<u8>>>> = BTreeMap::new();
    m.walk(&mut Vec::new(), &mut |p, m| {
        for e in &m.entries {
            if let What::File { data, .. } = &e.what {
                map.entry((p.to_vec(), e.name.clone())).or_default().push(data.clone());
            }
        }
    });
    map
}

fn check_c02(cx: &mut Ctx, out: &[u8], m: &Merged, c: &Cfg) -> R {
    let ix = match read_index(out, false) {
        Ok(i) => i,
        Err(b) => fail!("line {}: {} ({})", b.row, b.msg, c.describe()),
    };
    let mut map = datas(m);
    let mut spec = Digests::new(c.h, Policy::Spec);
    let mut cum = Digests::new(c.h, if c.threaded() { Policy::CumFile } else { Policy::CumAll });
    let mut known = None;
    let mut only_spec = None;
    for l in &ix.lines {
        if let LKind::File { digests, size, .. } = &l.kind {
            let key = (l.dir.clone(), l.name.clone());
            let data = match map.get_mut(&key) {
                Some(v) if !v.is_empty() => v.remove(0),
                _ => fail!("digests for a file that is not there: {:?}/{:?}", show(&l.dir), show(&l.name)),
            };
            let a = spec.file(&data, BS);
            let b = cum.file(&data, BS);
            cx.count("digests compared", a.len() as u64);
            if a.len() > 1 { cx.count("files of more than one block", 1); }
            cx.max("blocks of one file", a.len() as u64);
            if *digests == a {
                if a != b { only_spec = Some(l.row); }
                continue;
            }
            if c.h == H::B3 && *digests == b && only_spec.is_none() {
                known = Some(format!("line {} of an index with {}: the digests go on from earlier blocks", l.row, c.describe()));
                continue;
            }
            let i = digests.iter().zip(&a).position(|(x, y)| x != y).unwrap_or(a.len().min(digests.len()));
            fail!("{:?}/{:?} of {} bytes (listed as {}): digest {} of {} is {}, want {} ({})", show(&l.dir), show(&l.name), data.len(), size, i, a.len(),
                digests.get(i).map(|x| hex(x)).unwrap_or_default(), a.get(i).map(|x| hex(x)).unwrap_or_default(), c.describe());
        }
    }
    if let Some(((d, n), _)) = map.iter().find(|(_, v)| !v.is_empty()) { fail!("no digests for {:?}/{:?}", show(d), show(n)); }
    if let Some(k) = known {
        if let Some(r) = only_spec { fail!("some digests go on from earlier blocks and others (line {}) do not ({})", r, c.describe()); }
        cx.known("K1", k)?;
    }
    Ok(())
}

fn c02(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let mut c = cfg(&mut rng);
    if cx.idx == 0 { return c02_huge(cx); }
    let special_trees = [11u64, 12, 13, 6, 1, 10];
    let f = if (cx.idx as usize) < 1 + special_trees.len() * 6 {
        let j = cx.idx as usize - 1;
        c.h = ALL_H[j % 3];
        c.threads = [0, 4][(j / 3) % 2];
        let (_, t) = special(special_trees[j / 6], &mut rng).unwrap();
        put(cx, t)
    } else {
        let mut k = knobs(&mut rng);
        k.files_pct = 70; k.dirs_pct = 20;
        k.max_file = *rng.pick(&[5000usize, 70_000, 400_000, 1_300_000]);
        if k.max_file > 100_000 { k.nodes = k.nodes.min(20); }
        forest(cx, &k, 2)
    };
    let sess = conditions(&mut rng, true);
    let out = scan_ok(cx, &c, &f.roots, &sess)?;
    check_c02(cx, &out, &f.merged, &c)?;
    // once more, after bytes changed that no metadata tells of
    if rng.chance(1, 4) {
        let mut trees = f.trees.clone();
        let n: u64 = trees.iter_mut().zip(&f.roots).map(|(t, r)| gen::rewrite(&r.0, t, &mut rng)).sum();
        let m = gen::merged(&trees);
        let sess = conditions(&mut rng, true);
        if rng.chance(1, 2) { c.threads = *rng.pick(&[0usize, 2, 5]); }
        let out = scan_ok(cx, &c, &f.roots, &sess)?;
        check_c02(cx, &out, &m, &c)?;
        check_c01(cx, &out, &m, "second scan, after files were rewritten in place")?;
        cx.count("files rewritten between scans", n);
    }
    if f.merged.size().1 > 0 { cx.nontrivial(fingerprint(&f.merged, &c.describe())); }
    cx.sample(|| format!("{}; {}", describe(&f.merged), c.describe()));
    Ok(())
}

/// More than 2^32 bytes: block numbers and sizes beyond 32 bits
fn c02_huge(cx: &mut Ctx) -> R {
    let d = cx.dir();
    let size = (1u64 << 32) + 70_001;
    let marks = [(5u64, 1u8), ((1 << 32) - 1, 2), ((1 << 32) + 32768, 3), (size - 1, 4)];
    sparse(&d, "huge", size, &marks);
    sparse(&d, "later", 10, &[(3, 9)]);
    let c = Cfg { h: H::B2, threads: 2, queue: None, progress: false };
    let conf = config(&c, &[(d.clone(), PathBuf::from("/"))]);
    let mut s = Sink::plain();
    cx.tick();
    if let Err(e) = v1::scan(&conf, &mut s) { fail!("scan of a file of {} bytes fails: {}", size, e); }
    cx.eval();
    let ix = match read_index(&s.data, false) { Ok(i) => i, Err(b) => fail!("file of {} bytes: line {}: {}", size, b.row, b.msg) };
    let block = |o: u64, n: u64| { let mut v = vec![0u8; n as usize]; for (p, b) in marks { if p >= o && p < o + n { v[(p - o) as usize] = b; } } v };
    let zero = c.h.digest(&block(1 << 20, BS));
    let digests = match ix.lines.iter().find(|l| l.name == b"huge").map(|l| l.kind.clone()) {
        Some(LKind::File { digests, .. }) => digests, _ => { fail!("no entry for the file of {} bytes", size) }
    };
    for (i, got) in digests.iter().enumerate() {
        let o = i as u64 * BS;
        let n = BS.min(size - o);
        let want = if n < BS || marks.iter().any(|(p, _)| *p >= o && *p < o + n) { c.h.digest(&block(o, n)) } else { zero };
        ensure!(*got == want, "file of {} bytes: digest of the block at {} is {}, want {}", size, o, hex(got), hex(&want));
    }
    ensure!(digests.len() as u64 == size.div_ceil(BS), "{} digests for {} bytes", digests.len(), size);
    cx.count("digests compared", digests.len() as u64);
    cx.max("blocks of one file", digests.len() as u64);
    let later = ix.lines.iter().find(|l| l.name == b"later").map(|l| l.kind.clone());
    let mut v = vec![0u8; 10]; v[3] = 9;
    ensure!(matches!(later, Some(LKind::File { ref digests, .. }) if digests[..] == [c.h.digest(&v)]), "file after the large one: {:?}", later);
    Ok(())
}

// ---------------------------------------------------------------- C03

pub static C03: Prop = Prop {
    id: "C03", level: "exploration", rule: RULE_TREE,
    quick: 9000, thorough: 270000, quick_s: 45, thorough_s: 600, run: c03,
    assumptions: &["FORMAT.v1.rst with directory order by components, as hash.sh and the tests have it"],
    need: &["lines checked", "escaped bytes", "of them by worker threads"],
};

fn c03(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let c = cfg(&mut rng);
    let f = if cx.idx < 2 * SPECIALS {
        let (_, t) = special(cx.idx % SPECIALS, &mut rng).unwrap();
        put(cx, t)
    } else {
        let mut k = knobs(&mut rng);
        k.max_file = k.max_file.min(70_000);
        k.odd = *rng.pick(&[60u64, 100, 100]);
        k.nodes = *rng.pick(&[8usize, 20, 40, 80]);
        forest(cx, &k, 3)
    };
    let mut sess = conditions(&mut rng, false);
    sess.shuffle = Some(rng.next());
    let out = scan_ok(cx, &c, &f.roots, &sess)?;
    ensure!(out.starts_with(&header(c.h, BS)), "the header is {:?}", String::from_utf8_lossy(&out[..out.len().min(80)]));
    if let Some(p) = out.iter().position(|&b| b != b'\n' && (b < 0x20 || b >= 0x7f)) { fail!("byte {:#x} at offset {} is not escaped", out[p], p); }
    let ix = match read_index(&out, true) {
        Ok(i) => i,
        Err(b) => fail!("line {} is not canonical: {} ({})", b.row, b.msg, c.describe()),
    };
    if let Err(b) = check_order(&ix, f.roots.len() > 1) { fail!("line {} is out of order: {} ({})", b.row, b.msg, c.describe()); }
    // exact spelling of every name and target
    let mut want: BTreeMap<Vec<u8>, i64> = BTreeMap::new();
    f.merged.walk(&mut Vec::new(), &mut |p, m| {
        let mut v = Vec::new();
        escape(p, &mut v);
        *want.entry(v).or_insert(0) += 1;
        for e in &m.entries {
            let mut v = b"  ".to_vec();
            escape(&e.name, &mut v);
            match &e.what {
                What::File { exe, data } => v.extend_from_slice(format!(" {} {}", if *exe { "x" } else { "f" }, data.len()).as_bytes()),
                What::Link(t) => { v.extend_from_slice(b" s "); escape(t, &mut v); }
            }
            *want.entry(v).or_insert(0) += 1;
        }
    });
    let body = &out[ix.body.0..ix.body.1];
    for l in body.split(|&b| b == b'\n') {
        if l.is_empty() { continue; }
        let mut key = l.to_vec();
        if l.starts_with(b"  ") {
            let parts: Vec<&[u8]> = l[2..].splitn(4, |&b| b == b' ').collect();
            if parts.len() == 4 && parts[1] != b"s" { key.truncate(l.len() - parts[3].len() - 1); }
        }
        match want.get_mut(&key) {
            Some(n) if *n > 0 => *n -= 1,
            _ => fail!("the line {:?} is not how this entry is written", String::from_utf8_lossy(&l[..l.len().min(200)])),
        }
        cx.count("lines checked", 1);
    }
    cx.count("escaped bytes", out.windows(2).filter(|w| w == b"\\x").count() as u64);
    cx.max("longest line", body.split(|&b| b == b'\n').map(|l| l.len()).max().unwrap_or(0) as u64);
    if f.merged.size().1 > 0 { cx.nontrivial(fingerprint(&f.merged, &c.describe())); }
    cx.sample(|| format!("{}; {}", describe(&f.merged), c.describe()));
    Ok(())
}

// ---------------------------------------------------------------- C04

pub static C04: Prop = Prop {
    id: "C04", level: "exploration",
    rule: "random trees scanned, and random entry lists given to the emitter, into sinks that accept the bytes in scripted pieces (all, one byte, fixed, random sizes, with interruptions; some refuse once or twice and then work again, in which case only what is said to be complete is judged); the digest is recomputed in one shot from the bytes the sink holds; non-trivial when there is a line between header and footer, distinct by text and sink",
    quick: 16000, thorough: 480000, quick_s: 45, thorough_s: 600, run: c04,
    assumptions: &["the footer covers the lines after the header, as the code, hash.sh and the tests have it (FORMAT.v1.rst speaks of all previous lines)"],
    need: &["footers of scans", "footers of the emitter", "refused", "partial writes", "interrupted writes", "scans with progress", "of them by worker threads"],
};

fn check_footer(h: H, out: &[u8], what: &str) -> R {
    ensure!(out.ends_with(b"\n"), "no newline after the footer ({})", what);
    let body = &out[..out.len() - 1];
    let nl = match body.iter().rposition(|&b| b == b'\n') { Some(p) => p + 1, None => fail!("one line only ({})", what) };
    let start = out.iter().position(|&b| b == b'\n').unwrap() + 1;
    let want = hex(&h.digest(&out[start..nl]));
    let got = &body[nl..];
    ensure!(got == want.as_bytes(), "the footer is {:?}, the digest of the lines is {} ({})", String::from_utf8_lossy(&got[..got.len().min(100)]), want, what);
    Ok(())
}

fn c04(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let ch = chunks(&mut rng);
    let mut s = Sink::new(ch);
    if rng.chance(1, 3) { s.intr = rng.range(2, 9); }
    // a sink may refuse and then work again: whatever is complete has its footer
    let balky = rng.chance(1, 4);
    if balky {
        use std::io::ErrorKind::*;
        s.fault = *rng.pick(&[Fault::Error(WouldBlock), Fault::Error(WouldBlock), Fault::Error(TimedOut), Fault::Error(Other), Fault::Error(StorageFull), Fault::Zero]);
        let most = *rng.pick(&[60u64, 300, 3000]);
        s.at = rng.below(most) as usize;
        s.transient = rng.range(1, 2);
    }
    if cx.idx % 3 == 2 {
        // emitter
        let h = *rng.pick(&ALL_H);
        let (text, bs, _) = crate::props::parse::random_index(&mut rng, h);
        let r = crate::props::parse::emit(&text, h, bs, &mut s);
        cx.eval();
        if let Err(e) = r {
            ensure!(balky && s.failed > 0, "the emitter fails without a reason: {} ({})", e, shows(ch));
            cx.count("refused", 1);
            return Ok(());
        }
        check_footer(h, &s.data, &format!("emitter, {}, sink {}", h.name(), shows(ch)))?;
        cx.count("footers of the emitter", 1);
        cx.nontrivial(crate::rng::hash_bytes(&text) ^ crate::rng::hash_bytes(shows(ch).as_bytes()));
    } else {
        let c = cfg(&mut rng);
        let f = if cx.idx < 2 * SPECIALS {
            let (_, t) = special(cx.idx % SPECIALS, &mut rng).unwrap();
            put(cx, t)
        } else {
            let mut k = knobs(&mut rng);
            k.max_file = k.max_file.min(70_000);
            forest(cx, &k, 2)
        };
        let sess = conditions(&mut rng, true);
        if let Err(e) = scan(cx, &c, &f.roots, &mut s, &sess)? {
            ensure!(balky && s.failed > 0, "scan fails: {} ({}, sink {})", e, c.describe(), shows(ch));
            cx.count("refused", 1);
            return Ok(());
        }
        check_footer(c.h, &s.data, &format!("{}, sink {}", c.describe(), shows(ch)))?;
        cx.count("footers of scans", 1);
        cx.count("scans with progress", c.progress as u64);
        cx.nontrivial(fingerprint(&f.merged, &format!("{}{}", c.describe(), shows(ch))));
        cx.sample(|| format!("{}; {}; sink {:?}, {} write calls", describe(&f.merged), c.describe(), ch, s.calls));
    }
    cx.count("partial writes", if ch == crate::io::Chunk::All { 0 } else { s.calls });
    cx.count("interrupted writes", if s.intr != 0 { s.calls / s.intr } else { 0 });
    Ok(())
}

// ---------------------------------------------------------------- C05

pub static C05: Prop = Prop {
    id: "C05", level: "exploration",
    rule: "each case writes a random tree twice (other creation order, timestamps, owners), scans it under 6 to 10 different conditions (threads 0-17, queue sizes, progress, shuffled listings, unknown entry types, delays, a worker held at its first file, short and interrupted reads and writes, concurrent scans in the same process, the command line tool with and without thread support) and compares the bytes with the first scan and with the model; non-trivial when the tree has an entry, distinct by tree and condition",
    quick: 1200, thorough: 36000, quick_s: 45, thorough_s: 600, run: c05,
    assumptions: &["the tree is not changed during the scans"],
    need: &["scans compared", "concurrent scans", "of them by worker threads", "scans with a held worker", "scans by a build without threads"],
};

/// Hold the first worker that opens a file until the others have made progress
pub fn hold_first(limit: u64) -> Sess {
    let mut s = Sess::new();
    let held = AtomicU64::new(0);
    s.pre = Some(Box::new(move |s, call| {
        if call.k == K::Open && !call.main && held.fetch_add(1, SeqCst) == 0 {
            let t = std::time::Instant::now();
            let mut last = s.total();
            let mut same = 0;
            while t.elapsed().as_millis() < limit as u128 && same < 8 {
                std::thread::sleep(std::time::Duration::from_millis(1));
                let n = s.total();
                if n == last { same += 1; } else { same = 0; last = n; }
            }
        }
        Act::Pass
    }));
    s
}

fn same(cx: &mut Ctx, first: &[u8], out: &[u8], m: &Merged, h: H, threaded: bool, what: &str) -> R {
    cx.count("scans compared", 1);
    if first == out { return Ok(()); }
    if h == H::B3 && threaded && first == render(m, h, Policy::CumAll) && out == render(m, h, Policy::CumFile) {
        return cx.known("K1", "blake3 digests of the synchronous and of the threaded scan differ");
    }
    fail!("the output depends on the conditions ({}): {}", what, diff(out, first))
}

fn c05(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let h = *rng.pick(&ALL_H);
    let f = if cx.idx < SPECIALS {
        let (_, t) = special(cx.idx, &mut rng).unwrap();
        put(cx, t)
    } else {
        let mut k = knobs(&mut rng);
        k.max_file = k.max_file.min(70_000);
        k.nodes = k.nodes.max(8);
        forest(cx, &k, 2)
    };
    let copy = put(cx, f.trees.clone());
    if rng.chance(1, 2) {
        for (p, _) in &copy.roots { restamp(p, rng.next()); }
    }
    let base = Cfg { h, threads: 0, queue: None, progress: false };
    let first = scan_ok(cx, &base, &f.roots, &Sess::new())?;
    // the tree determines the index: model as a further witness
    let model = [Policy::Spec, Policy::CumAll].iter().any(|&p| render(&f.merged, h, p) == first);
    if !model { fail!("the scan differs from the model: {}", diff(&first, &render(&f.merged, h, if h == H::B3 { Policy::CumAll } else { Policy::Spec }))); }
    for i in 0..8u32 {
        let mut c = cfg(&mut rng);
        c.h = h;
        let mut sess = conditions(&mut rng, true);
        let mut sink = Sink::new(chunks(&mut rng));
        let roots = if rng.chance(1, 2) { &copy.roots } else { &f.roots };
        if i == 0 {
            c.threads = rng.range(2, 6) as usize;
            c.queue = Some(rng.range(0, 4) as usize);
            let hold = hold_first(100);
            sess.pre = hold.pre;
            cx.count("scans with a held worker", 1);
        } else if i == 1 { c.threads = 0; c.progress = true; }
        else if i == 2 { c.threads = 1; }
        else if i == 3 { c.threads = *rng.pick(&[2usize, 32, 100]); c.queue = Some(*rng.pick(&[0usize, 1, usize::MAX])); }
        if let Err(e) = scan(cx, &c, roots, &mut sink, &sess)? { fail!("scan fails: {} ({})", e, c.describe()); }
        same(cx, &first, &sink.data, &f.merged, h, c.threaded(), &c.describe())?;
        if f.merged.size().1 > 0 { cx.nontrivial(fingerprint(&f.merged, &format!("{}{}", c.describe(), i))); }
    }
    // several scans at once in this process
    if cx.idx % 3 == 0 {
        let mut rs = Vec::new();
        for j in 0..4usize {
            let c = Cfg { h, threads: [0, 2, 0, 3][j], queue: Some(j), progress: false };
            rs.push((c.clone(), std::sync::Mutex::new(None), f.roots.clone()));
        }
        let other = ALL_H[(ALL_H.iter().position(|x| *x == h).unwrap() + 1) % 3];
        rs[3].0.h = other;
        let mut sess = conditions(&mut rng, true);
        sess.jitter = rng.next() | 1;
        let r = crate::shim::with(&sess, || {
            std::thread::scope(|s| {
                for (c, slot, roots) in &rs {
                    s.spawn(move || {
                        let conf = config(c, roots);
                        let mut out = Vec::new();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v1::scan(&conf, &mut out).map_err(|e| e.to_string())));
                        *slot.lock().unwrap() = Some((r.unwrap_or_else(|_| Err("panic".into())), out));
                    });
                }
            });
        });
        if r.is_err() { fail!("concurrent scans panic"); }
        for (c, slot, _) in rs {
            let (r, out) = slot.into_inner().unwrap().unwrap();
            if let Err(e) = r { fail!("one of several concurrent scans fails: {} ({})", e, c.describe()); }
            cx.eval();
            cx.count("concurrent scans", 1);
            if c.h == h { same(cx, &first, &out, &f.merged, h, c.threaded(), &format!("concurrent, {}", c.describe()))?; }
            else {
                let ok = [Policy::Spec, Policy::CumAll, Policy::CumFile].iter().any(|&p| render(&f.merged, c.h, p) == out);
                ensure!(ok, "one of several concurrent scans differs from the model: {}", diff(&out, &render(&f.merged, c.h, Policy::Spec)));
            }
        }
    }
    // the library compiled without threads
    if let Some(exe) = std::env::var_os("VH_CLI_NOTHREADS") {
        if cx.idx % 2 == 0 {
            let mut cmd = std::process::Command::new(&exe);
            cmd.args(["-q", "--hash", h.name()]);
            for (p, _) in &f.roots { cmd.arg(p); }
            let o = cmd.stdin(std::process::Stdio::null()).output().expect("harness: cli");
            cx.eval();
            ensure!(o.status.success(), "the tool without thread support fails: {}", String::from_utf8_lossy(&o.stderr));
            same(cx, &first, &o.stdout, &f.merged, h, false, "built without threads")?;
            cx.count("scans by a build without threads", 1);
        }
    }
    cx.sample(|| format!("{}; {} ; base scan {} bytes", describe(&f.merged), h.name(), first.len()));
    Ok(())
}

pub fn restamp(p: &std::path::Path, seed: u64) {
    use std::os::unix::ffi::OsStrExt;
    if let Ok(d) = std::fs::read_dir(p) {
        for (i, e) in d.flatten().enumerate() {
            let c = std::ffi::CString::new(e.path().as_os_str().as_bytes()).unwrap();
            let r = crate::rng::mix(seed ^ i as u64);
            unsafe {
                let mut st: libc::stat = std::mem::zeroed();
                if libc::lstat(c.as_ptr(), &mut st) != 0 { continue; }
                if libc::lchown(c.as_ptr(), 1000 + (r % 5) as u32, 1000) == 0 && st.st_mode & libc::S_IFMT != libc::S_IFLNK {
                    // chown clears the set-id bits
                    libc::chmod(c.as_ptr(), st.st_mode & 0o7777);
                }
                let t = libc::timespec { tv_sec: (r >> 32) as i64, tv_nsec: 5 };
                libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [t, t].as_ptr(), libc::AT_SYMLINK_NOFOLLOW);
                if st.st_mode & libc::S_IFMT == libc::S_IFDIR { restamp(&e.path(), r); }
            }
        }
    }
}

