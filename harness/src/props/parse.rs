//! C06 - C12, C15, C23: reading, seeking, merging and re-emitting indexes.
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::io::{BufRead, Cursor, ErrorKind, Seek, SeekFrom};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

use dir_signature::v1::merge::{FileMergeBuilder, MergeError, MergedSignatures};
use dir_signature::v1::{Emitter, Entry, EntryKind, ParseError, Parser};
use dir_signature::get_hash;

use crate::alloc;
use crate::ctx::{Ctx, Prop, R};
use crate::gen::{self, Knobs};
use crate::io::{chunks, Chunk, Cutter, Fault, Sink, Src, MARK};
use crate::model::*;
use crate::props::util;
use crate::rng::{hash_bytes, Rng};
use crate::{ensure, fail};

// ---- documents ---------------------------------------------------------

fn lines_of(m: &Merged, rng: &mut Rng, h: H, bs: u64) -> Vec<Line> {
    let mut v = Vec::new();
    let mut row = 1;
    m.walk(&mut Vec::new(), &mut |p, m| {
        row += 1;
        v.push(Line { dir: p.to_vec(), name: vec![], kind: LKind::Dir, row });
        for e in &m.entries {
            row += 1;
            let kind = match &e.what {
                What::File { exe, data } => {
                    // any size with a few blocks of this block size
                    let n = match rng.below(6) { 0 => 0, 5 => rng.below(40), _ => rng.below(4) };
                    let size = if n == 0 { 0 } else {
                        let last = if rng.chance(1, 3) { bs } else { rng.range(1, bs) };
                        match (n - 1).checked_mul(bs).and_then(|x| x.checked_add(last)) { Some(x) => x, None => 0 }
                    };
                    let cnt = size / bs + (size % bs != 0) as u64;
                    let digests = (0..cnt).map(|i| h.digest(&[&data[..data.len().min(16)], &i.to_le_bytes()[..]].concat())).collect();
                    LKind::File { exe: *exe, size, digests }
                }
                What::Link(t) => LKind::Link(t.clone()),
            };
            v.push(Line { dir: p.to_vec(), name: e.name.clone(), kind, row });
        }
    });
    v
}

pub fn put_line(l: &Line, out: &mut Vec<u8>) {
    match &l.kind {
        LKind::Dir => escape(&l.dir, out),
        LKind::File { exe, size, digests } => {
            out.extend_from_slice(b"  ");
            escape(&l.name, out);
            out.extend_from_slice(format!(" {} {}", if *exe { "x" } else { "f" }, size).as_bytes());
            for d in digests { out.push(b' '); out.extend_from_slice(hex(d).as_bytes()); }
        }
        LKind::Link(t) => {
            out.extend_from_slice(b"  ");
            escape(&l.name, out);
            out.extend_from_slice(b" s ");
            escape(t, out);
        }
    }
    out.push(b'\n');
}

pub fn text_of(lines: &[Line], h: H, bs: u64) -> Vec<u8> {
    let mut out = header(h, bs);
    let n = out.len();
    for l in lines { put_line(l, &mut out); }
    let f = h.digest(&out[n..]);
    out.extend_from_slice(hex(&f).as_bytes());
    out.push(b'\n');
    out
}

pub fn doc_knobs(rng: &mut Rng) -> Knobs {
    Knobs { nodes: *rng.pick(&[1usize, 4, 10, 25, 60]), max_depth: *rng.pick(&[1usize, 3, 6, 12]), odd: *rng.pick(&[20u64, 60, 100]),
            max_file: 64, files_pct: *rng.pick(&[30u64, 60]), dirs_pct: *rng.pick(&[20u64, 50]), links_pct: 20, other_pct: 0, hard: false, modes: true }
}

pub fn block_size(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => 1, 1 => rng.range(1, 100), 2 => 1 << rng.below(40), 3 => rng.next() >> rng.below(62) | 1,
        4 => *rng.pick(&[4096u64, 65536, 1 << 20, u64::MAX, u64::MAX - 1, 1 << 63, u32::MAX as u64, 1 << 32]),
        _ => 32768,
    }
}

/// A canonical index text of arbitrary (not real) content
pub fn random_doc(rng: &mut Rng, h: H) -> (Vec<Line>, u64) {
    let k = doc_knobs(rng);
    let t = gen::tree(rng, &k);
    let bs = block_size(rng);
    let m = gen::merged(&[t]);
    (lines_of(&m, rng, h, bs), bs)
}

/// A random document, or one of the giants for the cases from `first` on
pub fn document(cx: &mut Ctx, rng: &mut Rng, h: H, first: u64) -> (Vec<u8>, u64, Vec<Line>) {
    let (t, b, l) = if cx.idx >= first && cx.idx < first + 2 * GIANTS { cx.count("giant texts", 1); giant((cx.idx - first) % GIANTS, rng, h) }
        else { random_index(rng, h) };
    cx.max("longest line of a text", t.split(|&c| c == b'\n').map(|l| l.len()).max().unwrap_or(0) as u64);
    cx.max("lines of a text", l.len() as u64);
    (t, b, l)
}

pub fn random_index(rng: &mut Rng, h: H) -> (Vec<u8>, u64, Vec<Line>) {
    let (l, bs) = random_doc(rng, h);
    (text_of(&l, h, bs), bs, l)
}

/// Documents far larger than what sampling makes
pub const GIANTS: u64 = 8;
pub fn giant(i: u64, rng: &mut Rng, h: H) -> (Vec<u8>, u64, Vec<Line>) {
    let mut v: Vec<Line> = Vec::new();
    let mut bs = *rng.pick(&[1u64, 7, 32768]);
    let dir = |v: &mut Vec<Line>, p: &[u8]| v.push(Line { dir: p.to_vec(), name: vec![], kind: LKind::Dir, row: v.len() + 2 });
    let add = |v: &mut Vec<Line>, p: &[u8], n: &[u8], kind: LKind| v.push(Line { dir: p.to_vec(), name: n.to_vec(), kind, row: v.len() + 2 });
    let file = |n: u64, bs: u64| LKind::File { exe: n % 3 == 0, size: n * bs - if n > 0 { bs / 2 } else { 0 }, digests: (0..n).map(|k| h.digest(&k.to_le_bytes())).collect() };
    dir(&mut v, b"/");
    match i {
        // a line with very many digests, between others
        0 | 1 => {
            add(&mut v, b"/", b"a", file(2, bs));
            add(&mut v, b"/", b"b", file(if i == 0 { 17_000 } else { 70_000 }, bs));
            add(&mut v, b"/", b"c", LKind::Link(b"x".to_vec()));
        }
        // long names and targets
        2 => {
            for (n, l) in [(b"a", 70_000usize), (b"b", 1 << 20), (b"c", 2_500_000)] {
                let t: Vec<u8> = rng.bytes(l).into_iter().map(|c| if c == 0 { b'0' } else { c }).collect();
                add(&mut v, b"/", n, LKind::Link(t));
            }
            for c in [b'd', b'e', 0xff] { add(&mut v, b"/", &vec![c; 300_000], file(1, bs)); }
        }
        // a very deep directory
        3 => {
            let mut p = Vec::new();
            for k in 0..30_000u32 { p.push(b'/'); p.extend_from_slice(format!("{:x} ", k).as_bytes()); }
            let up = p[..p.iter().rposition(|c| *c == b'/').unwrap()].to_vec();
            dir(&mut v, &up);
            add(&mut v, &up, b"f", file(1, bs));
            dir(&mut v, &p);
            add(&mut v, &p, b"f", file(1, bs));
            add(&mut v, &p, b"g", LKind::Link(b"..".to_vec()));
        }
        // very many entries in a directory, in two
        4 | 5 => {
            bs = 32768;
            let mut one = |p: &[u8], v: &mut Vec<Line>| for k in 0..25_000u32 {
                let n = format!("{:08}", k);
                add(v, p, n.as_bytes(), if k % 5 == 0 { LKind::Link(vec![b'q'; (k % 40) as usize + 1]) } else { file((k % 3) as u64, 32768) });
            };
            one(b"/", &mut v);
            if i == 5 { dir(&mut v, b"/sub"); one(b"/sub", &mut v); }
        }
        // very many directories
        6 => for k in 0..30_000u32 {
            let p = format!("/{:05}", k).into_bytes();
            dir(&mut v, &p);
            if k % 4 == 0 { add(&mut v, &p, b"only", file(1, bs)); }
        },
        // files of 2^17 bytes around a line break at every power of two
        _ => {
            bs = 1;
            for k in 6..21u32 {
                for d in -1i64..2 {
                    // the whole line is 2^k + d bytes
                    let want = (1i64 << k) + d;
                    let n = format!("n{:02}{}", k, d + 1);
                    let rest = want - (2 + n.len() as i64 + 3 + 1);
                    if rest < 1 { continue; }
                    add(&mut v, b"/", n.as_bytes(), LKind::Link(vec![b'l'; rest as usize]));
                }
            }
        }
    }
    v[1..].sort_by(|a, b| line_key(a).cmp(&line_key(b)));
    for (k, l) in v.iter_mut().enumerate() { l.row = k + 2; }
    (text_of(&v, h, bs), bs, v)
}

pub fn full_path(l: &Line) -> Vec<u8> {
    if l.kind == LKind::Dir { return l.dir.clone(); }
    let mut v = if l.dir == b"/" { Vec::new() } else { l.dir.clone() };
    v.push(b'/');
    v.extend_from_slice(&l.name);
    v
}

fn path(b: &[u8]) -> PathBuf { PathBuf::from(OsStr::from_bytes(b)) }

pub fn entry_diff(e: &Entry, l: &Line, h: H, bs: u64) -> Option<String> {
    let want = full_path(l);
    let got = e.path().as_os_str().as_bytes();
    if got != &want[..] { return Some(format!("line {}: path {:?}, want {:?}", l.row, show(got), show(&want))); }
    match (e, &l.kind) {
        (Entry::Dir(_), LKind::Dir) => None,
        (Entry::Link(_, t), LKind::Link(w)) => {
            if t.as_os_str().as_bytes() == &w[..] { None } else { Some(format!("line {}: target {:?}, want {:?}", l.row, show(t.as_os_str().as_bytes()), show(w))) }
        }
        (Entry::File { exe, size, hashes, .. }, LKind::File { exe: we, size: ws, digests }) => {
            if exe != we || size != ws { return Some(format!("line {}: exe {} size {}, want {} {}", l.row, exe, size, we, ws)); }
            if hashes.len() != digests.len() || hashes.iter().count() != digests.len() { return Some(format!("line {}: {} digests, want {}", l.row, hashes.len(), digests.len())); }
            for (i, (g, d)) in hashes.iter().zip(digests).enumerate() {
                if g != &d[..] || hashes.get(i) != Some(&d[..]) { return Some(format!("line {}: digest {} is {}, want {}", l.row, i, hex(g), hex(d))); }
            }
            if hashes.get(digests.len()).is_some() { return Some(format!("line {}: a digest beyond the end", l.row)); }
            if hashes.block_size() != bs || hashes.hash_type() != h.ht() { return Some(format!("line {}: hashes say {} {}", l.row, hashes.hash_type(), hashes.block_size())); }
            None
        }
        (e, _) => Some(format!("line {}: kind of entry: {:?}", l.row, e).chars().take(300).collect()),
    }
}

/// Line number in the text of a parse error
pub fn err_row(e: &ParseError) -> Option<usize> {
    let s = e.to_string();
    let r = s.strip_prefix("Parse error at line ")?;
    r.split(':').next()?.parse().ok()
}

fn kind_of(l: &Line) -> EntryKind<PathBuf> {
    if l.kind == LKind::Dir { EntryKind::Dir(path(&l.dir)) } else { EntryKind::File(path(&full_path(l))) }
}

/// Position of a kind in the order of an index
pub type Key = (Vec<Vec<u8>>, u8, Vec<u8>);
pub fn key(dir: bool, p: &[u8]) -> Key {
    let mut c: Vec<Vec<u8>> = comps(p).iter().map(|x| x.to_vec()).collect();
    if dir { (c, 0, vec![]) } else { let n = c.pop().unwrap_or_default(); (c, 1, n) }
}
fn line_key(l: &Line) -> Key { key(l.kind == LKind::Dir, &full_path(l)) }
pub fn kkey(k: &EntryKind<PathBuf>) -> Key {
    let plain = |p: &PathBuf| comps(p.as_os_str().as_bytes()).iter().filter(|c| **c != b".").flat_map(|c| [&b"/"[..], c].concat()).collect::<Vec<u8>>();
    match k { EntryKind::Dir(p) => key(true, &plain(p)), EntryKind::File(p) => key(false, &plain(p)) }
}

/// Another spelling of an equal path
fn respelled(rng: &mut Rng, p: &[u8]) -> Vec<u8> {
    let mut v = p.to_vec();
    if v.len() < 2 { return v; }
    for _ in 0..rng.range(1, 3) {
        let at: Vec<usize> = (0..v.len()).filter(|i| v[*i] == b'/').collect();
        let i = *rng.pick(&at);
        match rng.below(5) {
            0 | 1 => v.insert(i, b'/'),
            2 | 3 => { v.insert(i + 1, b'/'); v.insert(i + 1, b'.'); }
            _ => v.extend_from_slice(*rng.pick(&[&b"/"[..], b"/.", b"//", b"/./"])),
        }
    }
    v
}

/// A kind to look for: of the document, near one, or anything
pub fn some_kind(rng: &mut Rng, lines: &[Line]) -> EntryKind<PathBuf> {
    let base = if lines.is_empty() || rng.chance(1, 12) { b"/q".to_vec() } else { full_path(&lines[rng.us(lines.len())]) };
    let mut p = base;
    match rng.below(10) {
        0..=4 => {}
        5 => p.push(*rng.pick(&[1u8, b'-', b'0', 0xff, b'!'])),
        6 => { if p.len() > 1 { p.pop(); } if p.len() > 1 && p.ends_with(b"/") { p.pop(); } }
        7 => { if p != b"/" { p.push(b'/'); } p.extend_from_slice(*rng.pick(&[&b"a"[..], b"\x01", b"\xff", b"zz"])); }
        8 => { let i = rng.us(p.len()); if p[i] != b'/' { p[i] = *rng.pick(&[1u8, b'.', b'0', b'a', b'z', 0xfe]); } }
        _ => p = match rng.below(4) { 0 => b"/".to_vec(), 1 => vec![b'/', 0xff, 0xff], 2 => b"/\x01".to_vec(), _ => b"/a/b/c".to_vec() },
    }
    // keep it a normal path
    let c: Vec<Vec<u8>> = comps(&p).iter().filter(|c| *c != b"." && *c != b"..").map(|c| c.to_vec()).collect();
    let mut p = Vec::new();
    for x in &c { p.push(b'/'); p.extend_from_slice(x); }
    if p.is_empty() { return EntryKind::Dir(path(b"/")); }
    // mostly the type that exists
    let is_dir = lines.iter().find(|l| full_path(l) == p).map(|l| l.kind == LKind::Dir);
    let dir = match is_dir { Some(d) if rng.chance(5, 6) => d, _ => rng.chance(1, 2) };
    if rng.chance(1, 10) { p = respelled(rng, &p); }
    if dir { EntryKind::Dir(path(&p)) } else { EntryKind::File(path(&p)) }
}

/// Read everything with next(): entries, then the error texts
pub fn read_all<B: BufRead>(p: &mut Parser<B>, limit: usize) -> Result<(Vec<Entry>, Vec<ParseError>), String> {
    let mut v = Vec::new();
    let mut errs = Vec::new();
    let mut n = 0;
    let mut it = p.iter();
    loop {
        match it.next() {
            None => break,
            Some(Ok(e)) => v.push(e),
            Some(Err(e)) => errs.push(e),
        }
        n += 1;
        if n > limit { return Err(format!("more than {} items", limit)); }
    }
    // the end stays the end
    for _ in 0..3 { if let Some(x) = it.next() { return Err(format!("an item after the end: {:?}", x).chars().take(200).collect()); } }
    Ok((v, errs))
}

fn rows(t: &[u8]) -> usize { t.iter().filter(|&&c| c == b'\n').count() + !t.ends_with(b"\n") as usize }

fn check_complete<B: BufRead>(p: &mut Parser<B>, lines: &[Line], h: H, bs: u64) -> R {
    let hd = p.get_header();
    ensure!(hd.get_hash_type() == h.ht() && hd.get_block_size() == bs && hd.get_version() == "v1",
        "header reads as {} {} {}, want v1 {} {}", hd.get_version(), hd.get_hash_type(), hd.get_block_size(), h.name(), bs);
    let (es, errs) = match read_all(p, lines.len() + 5) { Ok(x) => x, Err(m) => fail!("{}", m) };
    if let Some(e) = errs.first() { fail!("a canonical index does not parse: {}", e); }
    ensure!(es.len() == lines.len(), "{} entries, want {}", es.len(), lines.len());
    for (e, l) in es.iter().zip(lines) {
        if let Some(d) = entry_diff(e, l, h, bs) { fail!("{}", d); }
    }
    Ok(())
}

pub fn show_text(t: &[u8]) -> String { String::from_utf8_lossy(&t[..t.len().min(400)]).into_owned() }

// ---------------------------------------------------------------- C06

pub static C06: Prop = Prop {
    id: "C06", level: "exploration",
    rule: "real scans of random and extreme trees, and random canonical texts with other block sizes, read back through the parser and compared field by field with the model of the tree; non-trivial with at least two lines, distinct by text",
    quick: 50000, thorough: 1500000, quick_s: 45, thorough_s: 600, run: c06,
    assumptions: &["blake3 digests of scans are compared with what the index says, see K1"],
    need: &["entries of scans", "entries of random texts", "escaped bytes"],
};

fn c06(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    if cx.idx < 2 * util::SPECIALS || cx.idx % 5 == 0 && cx.idx >= 2 * (util::SPECIALS + GIANTS) {
        let c = util::cfg(&mut rng);
        let f = if cx.idx < 2 * util::SPECIALS {
            let (_, t) = util::special(cx.idx % util::SPECIALS, &mut rng).unwrap();
            util::put(cx, t)
        } else {
            let mut k = util::knobs(&mut rng);
            k.max_file = k.max_file.min(100_000);
            util::forest(cx, &k, 2)
        };
        let sess = util::conditions(&mut rng, false);
        let out = util::scan_ok(cx, &c, &f.roots, &sess)?;
        // what must be read: the names from the tree, digests from the text
        let ix = match read_index(&out, false) { Ok(i) => i, Err(b) => fail!("line {}: {}", b.row, b.msg) };
        let mut want = Vec::new();
        let mut k = 0;
        let mut short = false;
        f.merged.walk(&mut Vec::new(), &mut |p, m| {
            let mut push = |name: Vec<u8>, kind: Option<&What>| {
                if k >= ix.lines.len() { short = true; return; }
                let l = &ix.lines[k];
                k += 1;
                let kind = match kind {
                    None => LKind::Dir,
                    Some(What::Link(t)) => LKind::Link(t.clone()),
                    Some(What::File { exe, data }) => LKind::File { exe: *exe, size: data.len() as u64,
                        digests: match &l.kind { LKind::File { digests, .. } => digests.clone(), _ => vec![] } },
                };
                want.push(Line { dir: p.to_vec(), name, kind, row: l.row });
            };
            push(vec![], None);
            for e in &m.entries { push(e.name.clone(), Some(&e.what)); }
        });
        ensure!(!short && k == ix.lines.len(), "the index has {} lines for {} directories and entries", ix.lines.len(), k);
        let ch = chunks(&mut rng);
        let mut p = match Parser::new(Src::new(&out, ch)) { Ok(p) => p, Err(e) => fail!("header: {}", e) };
        check_complete(&mut p, &want, c.h, BS)?;
        cx.eval();
        cx.count("entries of scans", want.len() as u64);
        cx.count("escaped bytes", out.windows(2).filter(|w| w == b"\\x").count() as u64);
        if want.len() > 1 { cx.nontrivial(hash_bytes(&out)); }
        cx.sample(|| format!("{}; {}", gen::describe(&f.merged), c.describe()));
        return Ok(());
    }
    let h = *rng.pick(&ALL_H);
    let (text, bs, lines) = document(cx, &mut rng, h, 2 * util::SPECIALS);
    let ch = chunks(&mut rng);
    let mut p = match Parser::new(Src::new(&text, ch)) { Ok(p) => p, Err(e) => fail!("header of block size {}: {}", bs, e) };
    check_complete(&mut p, &lines, h, bs)?;
    cx.eval();
    // a second reading through the same reader
    let mut r = p.into_reader();
    if r.seek(SeekFrom::Start(0)).is_ok() {
        let mut p = match Parser::new(r) { Ok(p) => p, Err(e) => fail!("second reading: {}", e) };
        check_complete(&mut p, &lines, h, bs)?;
        cx.eval();
    }
    cx.count("entries of random texts", lines.len() as u64);
    cx.count("escaped bytes", text.windows(2).filter(|w| w == b"\\x").count() as u64);
    cx.seen("block sizes", &bs.to_string());
    if lines.len() > 1 { cx.nontrivial(hash_bytes(&text)); }
    cx.sample(|| show_text(&text));
    Ok(())
}

// ---------------------------------------------------------------- C07

/// Parse the text and feed what comes out to the emitter
pub fn emit(text: &[u8], h: H, bs: u64, sink: &mut Sink) -> Result<(), String> {
    let mut p = Parser::new(Cursor::new(text)).map_err(|e| format!("parser: {}", e))?;
    let es = p.iter().collect::<Result<Vec<_>, _>>().map_err(|e| format!("parser: {}", e))?;
    emit_entries(&es, h, bs, sink).map_err(|e| format!("emitter: {} ({:?})", e, e.kind()))
}

pub fn emit_entries(es: &[Entry], h: H, bs: u64, sink: &mut Sink) -> std::io::Result<()> {
    let mut e = Emitter::new(h.ht(), bs, sink)?;
    for x in es {
        match x {
            Entry::Dir(p) => e.start_dir(p)?,
            Entry::File { path, exe, size, hashes } => e.add_file(path.file_name().unwrap_or_default(), *exe, *size, hashes)?,
            Entry::Link(p, d) => e.add_symlink(p.file_name().unwrap_or_default(), d)?,
        }
    }
    e.finish()
}

pub static C07: Prop = Prop {
    id: "C07", level: "fault_enumeration",
    rule: "random canonical texts and real scans parsed and re-emitted into sinks that take the bytes in scripted pieces; then into sinks that fail at a byte position (every position for some texts up to 700 bytes, else 20 random ones) with an error or by accepting nothing, once or from then on; non-trivial with at least two lines, distinct by text, sink and fault position",
    quick: 25000, thorough: 750000, quick_s: 45, thorough_s: 600, run: c07,
    assumptions: &[],
    need: &["round trips", "failing sinks", "sinks that fail once", "partial writes", "interrupted writes"],
};

fn c07(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let h = ALL_H[cx.idx as usize % 3];
    let (text, bs) = if cx.idx % 7 == 3 && cx.idx >= 2 * GIANTS {
        let mut k = util::knobs(&mut rng);
        k.max_file = k.max_file.min(70_000);
        let f = util::forest(cx, &k, 1);
        let c = util::Cfg { h, threads: 0, queue: None, progress: false };
        (util::scan_ok(cx, &c, &f.roots, &crate::shim::Sess::new())?, BS)
    } else { let (t, b, _) = document(cx, &mut rng, h, 0); (t, b) };
    let mut p = match Parser::new(Cursor::new(&text)) { Ok(p) => p, Err(e) => fail!("parser: {}", e) };
    let mut es = Vec::new();
    for e in p.iter() { match e { Ok(e) => es.push(e), Err(e) => fail!("parser: {}", e) } }
    for _ in 0..3 {
        let ch = chunks(&mut rng);
        let mut s = Sink::new(ch);
        if rng.chance(1, 3) { s.intr = rng.range(2, 7); cx.count("interrupted writes", 1); }
        let r = emit_entries(&es, h, bs, &mut s);
        cx.eval();
        if let Err(e) = r { fail!("the emitter fails without a reason: {} ({:?}, {} block_size {})", e, ch, h.name(), bs); }
        ensure!(s.data == text, "re-emitted text differs ({:?}, {} block_size {}): {}", ch, h.name(), bs, diff(&s.data, &text));
        cx.count("round trips", 1);
        if ch != Chunk::All { cx.count("partial writes", s.calls); }
        if es.len() > 1 { cx.nontrivial(hash_bytes(&text) ^ hash_bytes(format!("{:?}", ch).as_bytes())); }
    }
    // a file checked through the parser again
    let every = text.len() <= 700 && cx.idx % 8 == 0;
    let n = if every { text.len() } else if text.len() > 100_000 { 4 } else { 20 };
    for i in 0..n {
        let at = if every { i } else { rng.us(text.len()) };
        let mut s = Sink::new(chunks(&mut rng));
        s.at = at;
        s.budget = 50;
        let kind = *rng.pick(&[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::TimedOut]);
        s.fault = if rng.chance(1, 5) { Fault::Zero } else { Fault::Error(kind) };
        // half of the sinks would work again after the failure
        if rng.chance(1, 2) { s.transient = 1; cx.count("sinks that fail once", 1); }
        let fault = s.fault;
        let r = emit_entries(&es, h, bs, &mut s);
        cx.eval();
        match (r, fault) {
            (Ok(()), f) => fail!("the sink failed at byte {} of {} ({:?}) and the emitter reports success", at, text.len(), f),
            (Err(e), Fault::Error(k)) => ensure!(e.kind() == k && e.to_string().contains(MARK), "the sink failed with {:?} at byte {}, the emitter reports {:?} {}", k, at, e.kind(), e),
            (Err(e), _) => ensure!(e.kind() == ErrorKind::WriteZero, "the sink accepts nothing at byte {}, the emitter reports {:?} {}", at, e.kind(), e),
        }
        ensure!(text.starts_with(&s.data) && s.data.len() == at, "sink failing at byte {}: it holds {} bytes that are not the prefix", at, s.data.len());
        cx.count("failing sinks", 1);
        if es.len() > 1 { cx.nontrivial(hash_bytes(&text) ^ crate::rng::mix(at as u64)); }
    }
    cx.sample(|| format!("{} block_size={} {} entries, {} bytes: {}", h.name(), bs, es.len(), text.len(), show_text(&text)));
    Ok(())
}

// ---------------------------------------------------------------- C08

pub static C08: Prop = Prop {
    id: "C08", level: "exploration",
    rule: "hostile byte sequences (mutated canonical texts, token soup, huge numbers, handcrafted headers and lines, random bytes, very long lines, very many lines) given to the parser, to seeking, to merging and to the hash extraction, with the heap measured; non-trivial when the header parses or the text is mutated, distinct by text",
    quick: 250000, thorough: 7500000, quick_s: 45, thorough_s: 600, run: c08,
    assumptions: &["memory bound used: 256 KiB + 40 times the longest line (per index when merging)"],
    need: &["items read", "errors seen", "texts with a good header", "seeks", "merge groups", "hash extractions"],
};

const NUMS: &[&str] = &["0", "1", "32768", "32767", "32769", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808",
    "4294967295", "4294967296", "99999999999999999999999999", "-1", "+5", "00", "0x10", "1e9", "", " ", "\u{663}", "18446744073709551614", "576460752303423488", "281474976710656", "1125899906842624"];

fn token(rng: &mut Rng) -> Vec<u8> {
    match rng.below(16) {
        0 => b"f".to_vec(), 1 => b"x".to_vec(), 2 => b"s".to_vec(),
        3 | 4 => rng.pick(NUMS).as_bytes().to_vec(),
        5 | 6 => hex(&rng.bytes(32)).into_bytes(),
        7 => { let n = rng.us(70); hex(&rng.bytes(n / 2 + 1)).into_bytes()[..n].to_vec() }
        8 => b"\\x".to_vec(), 9 => b"\\x2f".to_vec(), 10 => b"\\x00".to_vec(),
        11 => b"..".to_vec(), 12 => b"/".to_vec(),
        13 => { let n = rng.us(12); rng.bytes(n) }
        14 => b"a\\x".to_vec(),
        _ => rng.pick(&[&b"name"[..], b"DIRSIGNATURE.v1", b"block_size=32768", b"\xff\xfe", b"\\xe9", b"."]).to_vec(),
    }
}

pub fn hostile(rng: &mut Rng) -> Vec<u8> {
    match rng.below(12) {
        0 => { let n = rng.us(300); rng.bytes(n) }
        1 | 2 => {
            // token soup under a good or nearly good header
            let h = *rng.pick(&ALL_H);
            let mut t = if rng.chance(4, 5) {
                format!("DIRSIGNATURE.v1 {} block_size={}\n", h.name(), if rng.chance(1, 2) { "32768" } else { rng.pick(NUMS) }).into_bytes()
            } else { let mut v = Vec::new(); for _ in 0..rng.range(1, 5) { v.extend(token(rng)); v.push(b' '); } v.push(b'\n'); v };
            for _ in 0..rng.below(12) {
                match rng.below(5) { 0 => t.push(b'/'), 1..=3 => t.extend_from_slice(b"  "), _ => {} }
                for _ in 0..rng.below(6) { t.extend(token(rng)); t.push(b' '); }
                if rng.chance(3, 4) { t.pop(); }
                t.push(b'\n');
            }
            if rng.chance(1, 2) { t.extend(hex(&rng.bytes(32)).into_bytes()); t.push(b'\n'); }
            t
        }
        3 => {
            // sizes and block sizes that promise many digests
            let h = *rng.pick(&ALL_H);
            let mut t = format!("DIRSIGNATURE.v1 {} block_size={}\n/\n", h.name(), rng.pick(NUMS)).into_bytes();
            for i in 0..rng.range(1, 5) {
                t.extend(format!("  n{} {} {}", i, rng.pick(&["f", "x"]), rng.pick(NUMS)).into_bytes());
                for _ in 0..rng.below(4) { t.push(b' '); t.extend(hex(&rng.bytes(32)).into_bytes()); }
                t.push(b'\n');
            }
            t.extend(hex(&rng.bytes(32)).into_bytes());
            t.push(b'\n');
            t
        }
        _ => {
            let h = *rng.pick(&ALL_H);
            let (mut t, _, _) = random_index(rng, h);
            for _ in 0..rng.range(1, 6) { mutate(rng, &mut t); }
            t
        }
    }
}

fn mutate(rng: &mut Rng, t: &mut Vec<u8>) {
    if t.is_empty() { t.push(b'/'); return; }
    let i = rng.us(t.len());
    match rng.below(16) {
        0 => t[i] = rng.next() as u8,
        1 => t[i] ^= 1 << rng.below(8),
        2 => { t.remove(i); }
        3 => t.insert(i, rng.next() as u8),
        4 => t.insert(i, *rng.pick(&[b' ', b'\n', b'/', b'\\', b'0', 0, 0xff])),
        5 => t.truncate(i),
        6 => { let n = rng.us(t.len() - i).min(200); let p: Vec<u8> = t[i..i + n].to_vec(); let j = rng.us(t.len()); for (k, b) in p.into_iter().enumerate() { t.insert(j + k, b); } }
        7 => { let n = rng.us(t.len() - i).min(200); t.drain(i..i + n); }
        8 => {
            // another number in place of one
            if let Some(s) = t[i..].iter().position(|c| c.is_ascii_digit()).map(|p| p + i) {
                let e = t[s..].iter().position(|c| !c.is_ascii_digit()).map(|p| p + s).unwrap_or(t.len());
                let n = rng.pick(NUMS).as_bytes().to_vec();
                t.splice(s..e, n);
            }
        }
        9 | 10 => {
            // lines: swap, repeat, drop
            let mut ls: Vec<Vec<u8>> = t.split(|&c| c == b'\n').map(|l| l.to_vec()).collect();
            let a = rng.us(ls.len()); let b = rng.us(ls.len());
            match rng.below(4) { 0 => ls.swap(a, b), 1 => { let l = ls[a].clone(); ls.insert(b, l); } 2 => { ls.remove(a); } _ => { let l = ls[b].clone(); ls[a].extend(l); } }
            *t = ls.join(&b'\n');
        }
        11 => { let tk = token(rng); let at = i; for (k, b) in tk.into_iter().enumerate() { t.insert(at + k, b); } }
        12 => { let n = rng.us(1000); let b = *rng.pick(&[b' ', b'a', b'0', b'\n', 0xff, b'/']); for _ in 0..n { t.insert(i, b); } }
        13 | 14 => {
            // text of wide characters, whole or broken, somewhere in a line or at its end
            let at = if rng.chance(1, 2) { t[i..].iter().position(|&c| c == b'\n').map(|p| p + i).unwrap_or(t.len()) } else { i };
            let mut x = if rng.chance(1, 2) { vec![b' '] } else { vec![] };
            for _ in 0..rng.below(4) { x.push(b'q'); }
            let c = *rng.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{fffd}"]);
            let top = if rng.chance(1, 8) { 600 } else { 60 };
            for _ in 0..rng.range(1, top) {
                match rng.below(12) { 0 => x.push(rng.range(0x80, 0xff) as u8), 1 => x.push(b'b'), _ => x.extend_from_slice(c.as_bytes()) }
            }
            t.splice(at..at, x);
        }
        _ => { for _ in 0..rng.below(5) { t.push(rng.next() as u8); } }
    }
}

fn handmade() -> Vec<Vec<u8>> {
    let f = "a79eef66019bfb9a41f798f2cff2d2d36ed294cc3f96bf53bbfc5192ebe60192";
    let mut v: Vec<Vec<u8>> = Vec::new();
    for b in ["0", "1", "18446744073709551615", "18446744073709551616", "", "-1", "x", "00", "+1", "1 2"] {
        for s in ["0", "1", "18446744073709551615", "9223372036854775808", "18446744073709551616", "", "-1"] {
            v.push(format!("DIRSIGNATURE.v1 sha512/256 block_size={}\n/\n  a f {} {}\n{}\n", b, s, f, f).into_bytes());
        }
    }
    for h in ["", "\n", "DIRSIGNATURE", "DIRSIGNATURE.v1", "DIRSIGNATURE.v1\n", "DIRSIGNATURE.v1 \n", "DIRSIGNATURE.v1 sha512/256\n", "DIRSIGNATURE.v1 blake3/256 \n",
        "DIRSIGNATURE.v1 sha512/256 block_size\n", "DIRSIGNATURE.v1 sha512/256 block_size=\n", "DIRSIGNATURE.v2 sha512/256 block_size=1\n", ".v1 sha512/256 block_size=1\n",
        "DIRSIGNATURE.v1 sha512/256 block_size=1\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n\n\n\n\n",
        "DIRSIGNATURE.v1 sha512/256 block_size=1\n  \n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  \n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  a\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  a s\n",
        "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  a f\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  a f \n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/ \n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/ a\n",
        "DIRSIGNATURE.v1 sha512/256 block_size=1\n//\n  a s b\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/..\n  a s b\n/a/../b\n  c s d\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  \\x2f f 0\n",
        "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  .. f 0\n  . f 0\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  /abs f 0\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  a\\x f 0\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  a\\x2 f 0\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n  a f 0\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n  / f 0\n", "DIRSIGNATURE.v1 sha512/256 block_size=1\n   f 0\n"] {
        v.push(h.as_bytes().to_vec());
        let mut w = h.as_bytes().to_vec();
        w.extend_from_slice(f.as_bytes());
        w.push(b'\n');
        v.push(w);
    }
    v
}

fn bound(texts: &[&[u8]]) -> i64 {
    texts.iter().map(|t| 262_144 + 40 * t.split(|&c| c == b'\n').map(|l| l.len()).max().unwrap_or(0) as i64).sum()
}

fn c08(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let hand = handmade();
    if cx.idx % 40_000 == 20_003 { return long_lines(cx, &mut rng); }
    let t = if (cx.idx as usize) < hand.len() { hand[cx.idx as usize].clone() }
    else if cx.idx % 5000 == 4999 { big_text(&mut rng) }
    else { hostile(&mut rng) };
    let max_rows = rows(&t);
    let ch = chunks(&mut rng);
    let ch2 = if t.len() > 20_000 { Chunk::All } else { ch };
    // 1. plain iteration
    let (r, u) = alloc::measure(|| -> Result<(u64, u64, bool), String> {
        let mut p = match Parser::new(Src::new(&t, ch2)) { Ok(p) => p, Err(e) => { let _ = e.to_string().len(); return Ok((0, 1, false)); } };
        let (mut n, mut e) = (0u64, 0u64);
        let mut it = p.iter();
        while let Some(x) = it.next() {
            match x { Ok(_) => n += 1, Err(x) => { e += 1; let _ = format!("{} {:?}", x, x).len(); } }
            if n + e > max_rows as u64 + 1 { return Err(format!("{} items from {} lines", n + e, max_rows)); }
        }
        Ok((n, e, true))
    });
    cx.eval();
    let (n, e, good) = match r { Ok(x) => x, Err(m) => fail!("{}: {:?}", m, show_text(&t)) };
    cx.count("items read", n);
    cx.count("errors seen", e);
    cx.count("texts with a good header", good as u64);
    let lim = bound(&[&t]);
    ensure!(u.refused == 0, "a request of more than 1 GiB of memory for a text of {} bytes: {:?}", t.len(), show_text(&t));
    ensure!(u.peak <= lim, "{} bytes of heap for lines of at most {} bytes (bound {}): {:?}", u.peak, t.split(|&c| c == b'\n').map(|l| l.len()).max().unwrap_or(0), lim, show_text(&t));
    cx.max("heap bytes while reading", u.peak.max(0) as u64);
    // 2. seeking, mixed with iteration
    let ls: Vec<Line> = read_index(&t, false).map(|i| i.lines).unwrap_or_default();
    let kinds: Vec<(bool, EntryKind<PathBuf>)> = (0..rng.range(1, 30)).map(|_| (rng.chance(1, 4), some_kind(&mut rng, &ls))).collect();
    let (r, u) = alloc::measure(|| -> Result<u64, String> {
        let mut p = match Parser::new(Src::new(&t, ch2)) { Ok(p) => p, Err(_) => return Ok(0) };
        let mut it = p.iter();
        let mut items = 0;
        let mut calls = 0;
        for (nx, k) in kinds.iter().cycle() {
            let r = if *nx { it.next() } else { it.advance(k) };
            calls += 1;
            if r.is_some() { items += 1; }
            if calls >= kinds.len() as u64 { break; }
        }
        while it.next().is_some() { items += 1; if items > max_rows as u64 + 1 { return Err(format!("{} items from {} lines with seeking", items, max_rows)); } }
        Ok(calls)
    });
    match r { Ok(n) => cx.count("seeks", n), Err(m) => fail!("{}: {:?}", m, show_text(&t)) }
    ensure!(u.peak <= lim + 50_000 && u.refused == 0, "seeking: {} bytes of heap (bound {}): {:?}", u.peak, lim, show_text(&t));
    // 3. merging with itself and another one
    let t2 = if rng.chance(1, 2) { hostile(&mut rng) } else {
        // likely the same header
        let mut x = t.clone(); mutate(&mut rng, &mut x); x };
    let total = rows(&t) + rows(&t2) + rows(&t);
    let (r, u) = alloc::measure(|| -> Result<u64, String> {
        let mut ps = Vec::new();
        for (i, x) in [&t, &t2, &t].iter().enumerate() {
            if let Ok(p) = Parser::new(Cursor::new(&x[..])) { ps.push((i, p)); }
        }
        let n = ps.len();
        let mut m = match MergedSignatures::new(ps) { Ok(m) => m, Err(_) => return Ok(0) };
        let mut it = m.iter();
        let mut groups = 0;
        for (nx, k) in kinds.iter() { if *nx { groups += it.next().is_some() as u64; } else { let v = it.advance(k); if v.len() > n { return Err(format!("{} results for {} indexes", v.len(), n)); } } }
        while let Some(g) = it.next() {
            groups += 1;
            if g.is_empty() { return Err("an empty group".into()); }
            if groups > total as u64 + 3 { return Err(format!("{} groups from {} lines", groups, total)); }
        }
        Ok(groups)
    });
    match r { Ok(n) => cx.count("merge groups", n), Err(m) => fail!("merge: {}: {:?} with {:?}", m, show_text(&t), show_text(&t2)) }
    ensure!(u.peak <= bound(&[&t, &t2, &t]) + 50_000 && u.refused == 0, "merging: {} bytes of heap: {:?}", u.peak, show_text(&t));
    // 4. the hash of the file
    let (_, u) = alloc::measure(|| get_hash(&mut Src::new(&t, ch2)).is_ok());
    cx.count("hash extractions", 1);
    ensure!(u.peak <= 65_536, "extracting the hash takes {} bytes of heap", u.peak);
    cx.nontrivial(hash_bytes(&t));
    cx.sample(|| show_text(&t));
    Ok(())
}

/// Many damaged, empty and equal lines, on a small stack
fn long_lines(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = 150_000;
    let mut t = header(H::Sha, BS);
    t.extend_from_slice(b"/\n");
    let line: &[u8] = *rng.pick(&[&b"  a f 1\n"[..], b"  a f x\n", b"/\n", b"  .. f 0\n", b"  a q\n", b"  \\x f 0\n"]);
    for _ in 0..n { t.extend_from_slice(line); }
    t.extend_from_slice(*rng.pick(&[&b""[..], b"\n", b"/z\n", b"abc"]));
    let what = format!("{} lines {:?}", n, show_text(line));
    let r = std::thread::Builder::new().stack_size(256 << 10).spawn(move || -> Result<u64, String> {
        let mut items = 0u64;
        for seek in [false, true] {
            let mut p = Parser::new(&t[..]).map_err(|e| e.to_string())?;
            let mut it = p.iter();
            let k = EntryKind::Dir(path(b"/zz"));
            while let Some(_) = if seek { it.advance(&k) } else { it.next() } { items += 1; if items > 2 * n + 9 { return Err(format!("{} items", items)); } }
            while it.next().is_some() { items += 1; if items > 2 * n + 9 { return Err(format!("{} items", items)); } }
        }
        let mut m = MergedSignatures::new(vec![(0, Parser::new(&t[..]).map_err(|e| e.to_string())?), (1, Parser::new(&t[..]).map_err(|e| e.to_string())?)]).map_err(|e| e.to_string())?;
        let mut it = m.iter();
        let mut groups = 0;
        while it.next().is_some() { groups += 1; if groups > 2 * n + 9 { return Err(format!("{} groups", groups)); } }
        Ok(items + groups)
    }).expect("harness: thread").join();
    cx.eval();
    match r {
        Ok(Ok(k)) => cx.count("items read", k),
        Ok(Err(m)) => fail!("{} ({})", m, what),
        Err(_) => fail!("panic: {} ({})", crate::runner::LAST_PANIC.lock().unwrap(), what),
    }
    cx.nontrivial(hash_bytes(what.as_bytes()));
    Ok(())
}

fn big_text(rng: &mut Rng) -> Vec<u8> {
    let h = *rng.pick(&ALL_H);
    let mut t = header(h, 32768);
    match rng.below(4) {
        0 => { // very many lines
            for i in 0..60_000 { t.extend(if i % 50 == 0 { format!("/d{:06}\n", i) } else { format!("  n{:06} s t{}\n", i, i % 7) }.into_bytes()); }
        }
        1 => { t.extend_from_slice(b"/\n  a f 99999999"); for _ in 0..3052 { t.push(b' '); t.extend(hex(&[7; 32]).into_bytes()); } t.push(b'\n'); }
        2 => { t.push(b'/'); for _ in 0..300_000 { t.extend_from_slice(b"\\xff"); } t.push(b'\n'); }
        _ => { t.extend_from_slice(b"/\n  "); t.extend(std::iter::repeat(b'a').take(700_000)); t.extend_from_slice(b" q 0\n"); }
    }
    let f = h.digest(&t);
    t.extend(hex(&f).into_bytes());
    t.push(b'\n');
    t
}

// ---------------------------------------------------------------- C09

pub static C09: Prop = Prop {
    id: "C09", level: "fault_enumeration",
    rule: "random canonical texts cut off at every byte, with data after the footer, and with every kind of listed format violation applied to a random line; the parser must return exactly the entries of the lines before and then an error with the number of the line, through next(), through advance() and through a merge; non-trivial always, distinct by damaged text",
    quick: 14000, thorough: 420000, quick_s: 45, thorough_s: 600, run: c09,
    assumptions: &["free zone, not judged: one trailing space, upper-case digits in hex, a plus sign before a size, other white space in the header, order of lines, the value of the footer"],
    need: &["truncations", "damaged lines", "damaged footers", "damaged headers", "data after the footer", "checked by seeking", "checked by merging"],
};

/// The text must be refused with an error at one of `at`, after `good` entries
fn refuse(cx: &mut Ctx, t: &[u8], lines: &[Line], good: usize, at: &[usize], h: H, bs: u64, what: &str) -> R {
    cx.eval();
    cx.nontrivial(hash_bytes(t));
    cx.count("errors checked", 1);
    let mut p = match Parser::new(Cursor::new(t)) {
        Ok(p) => p,
        Err(e) => {
            ensure!(good == 0 && at.contains(&1) && err_row(&e) == Some(1), "{}: the header is refused with {:?}, want an error at line {:?} after {} entries", what, e.to_string(), at, good);
            return Ok(());
        }
    };
    ensure!(!(good == 0 && at == [1]), "{}: the header is accepted: {:?}", what, show_text(t));
    let max = rows(t) + 2;
    {
        let mut it = p.iter();
        for i in 0..good {
            match it.next() {
                Some(Ok(e)) => if let Some(d) = entry_diff(&e, &lines[i], h, bs) { fail!("{}: before the damage: {}", what, d); },
                Some(Err(e)) => fail!("{}: an error at entry {} of {} that are not damaged: {} (damage at line {:?})", what, i, good, e, at),
                None => fail!("{}: the end at entry {} of {} that are not damaged", what, i, good),
            }
        }
        match it.next() {
            Some(Err(e)) => match err_row(&e) {
                Some(r) if at.contains(&r) => {}
                _ => fail!("{}: the error is {:?}, want one at line {:?}", what, e.to_string(), at),
            },
            Some(Ok(e)) => fail!("{}: an entry instead of an error at line {:?}: {:?}", what, at, e.path()),
            None => fail!("{}: read as a complete index without an error (line {:?})", what, at),
        }
        let mut n = 0;
        while it.next().is_some() { n += 1; ensure!(n <= max, "{}: no end after the error", what); }
    }
    if cx.rng.chance(1, 4) {
        // advance past everything
        let mut p = Parser::new(Cursor::new(t)).map_err(|e| crate::ctx::Violation { msg: format!("{}: the header is refused the second time: {}", what, e), detail: String::new() })?;
        let mut it = p.iter();
        match it.advance(&EntryKind::Dir(path(&vec![b'/'; 1].iter().cloned().chain(std::iter::repeat(0xff).take(300)).collect::<Vec<u8>>()))) {
            Some(Err(e)) => ensure!(err_row(&e).map_or(false, |r| at.contains(&r)), "{}: seeking gives {:?}, want an error at line {:?}", what, e.to_string(), at),
            _ => fail!("{}: seeking over the damage gives no error (line {:?})", what, at),
        }
        cx.count("checked by seeking", 1);
        // merge with a good index
        let good_text = text_of(lines, h, bs);
        let a = Parser::new(Cursor::new(&good_text[..])); let b = Parser::new(Cursor::new(t));
        if let (Ok(a), Ok(b)) = (a, b) {
            let mut m = match MergedSignatures::new(vec![("good", a), ("bad", b)]) { Ok(m) => m, Err(e) => fail!("{}: {}", what, e) };
            let mut seen = None;
            let mut n = 0;
            for g in m.iter() {
                for (k, e) in g { if let Err(e) = e { if seen.is_none() { seen = Some((*k, e)); } } }
                n += 1;
                ensure!(n <= max + lines.len() + 4, "{}: the merge does not end", what);
            }
            match seen {
                Some((k, e)) => ensure!(k == "bad" && err_row(&e).map_or(false, |r| at.contains(&r)), "{}: the merge reports {:?} for {}, want line {:?}", what, e.to_string(), k, at),
                None => fail!("{}: the merge reports no error (line {:?})", what, at),
            }
            cx.count("checked by merging", 1);
        }
    }
    Ok(())
}

fn enc(n: &[u8]) -> Vec<u8> { let mut v = Vec::new(); escape(n, &mut v); v }

/// Ways to violate the format in one line
fn break_line(rng: &mut Rng, l: &Line, first: bool) -> Option<(&'static str, Vec<u8>)> {
    let mut s = Vec::new();
    put_line(l, &mut s);
    s.pop();
    let name = enc(&l.name);
    let hx = |rng: &mut Rng| hex(&rng.bytes(32)).into_bytes();
    let join = |parts: &[&[u8]]| parts.concat();
    Some(match &l.kind {
        LKind::Dir => match rng.below(7) {
            0 => ("directory line with one space before", join(&[b" ", &s])),
            1 => ("directory line with two fields", join(&[&s, b" x"])),
            2 => ("directory line without the slash", { let v = s[1..].to_vec(); if v.starts_with(b"/") { return None; } v }),
            3 => ("empty line", vec![]),
            4 => ("directory line with two spaces inside", join(&[&s, b"  x"])),
            5 if first => ("entry before any directory", join(&[b"  a f 0"])),
            _ => ("line of text", b"some text".to_vec()),
        },
        LKind::Link(t) => {
            let t = enc(t);
            match rng.below(12) {
                0 => ("unknown type", join(&[b"  ", &name, b" ", rng.pick(&[&b"l"[..], b"S", b"ss", b"d", b"h", b"0"]), b" ", &t])),
                1 => ("link with two targets", join(&[&s, b" ", &t])),
                2 => ("doubled separator before the type", join(&[b"  ", &name, b"  s ", &t])),
                3 => ("doubled separator before the target", join(&[b"  ", &name, b" s  ", &t])),
                4 => ("link without a target", join(&[b"  ", &name, b" s"])),
                5 => ("name only", join(&[b"  ", &name])),
                6 => ("missing separator", { if name.is_empty() { return None; } join(&[b"  ", &name, b"s ", b"q"]) }),
                7 => ("three spaces at the start", join(&[b" ", &s])),
                8 => ("one space at the start", s[1..].to_vec()),
                9 => ("name .", join(&[b"  ", rng.pick(&[&b"."[..], b"..", b"\\x2e", b"\\x2e\\x2e", b".\\x2e", b"a/b", b"/a", b"a\\x2fb", b"/", b"a/"]), b" s ", &t])),
                10 => ("empty name", join(&[b"   s ", &t])),
                _ => ("no space at the start", { let v = s[2..].to_vec(); if v.starts_with(b"/") { return None; } v }),
            }
        }
        LKind::File { exe, size, digests } => {
            let ty: &[u8] = if *exe { b"x" } else { b"f" };
            let sz = size.to_string().into_bytes();
            let ds: Vec<Vec<u8>> = digests.iter().map(|d| hex(d).into_bytes()).collect();
            let make = |name: &[u8], ty: &[u8], sz: &[u8], ds: &[Vec<u8>]| {
                let mut v = join(&[b"  ", name, b" ", ty, b" ", sz]);
                for d in ds { v.push(b' '); v.extend_from_slice(d); }
                v
            };
            match rng.below(24) {
                0 => ("unknown type", make(&name, rng.pick(&[&b"F"[..], b"X", b"ff", b"fx", b"d", b"l", b"0", b"-"]), &sz, &ds)),
                1 => ("size", make(&name, ty, rng.pick(&[&b"-1"[..], b"1.0", b"0x1", b"1e3", b"abc", b"99999999999999999999", b"18446744073709551616", b"1,0", b"\xd9\xa1"]), &ds)),
                2 => ("size with a letter", make(&name, ty, &join(&[&sz, b"k"]), &ds)),
                3 => ("missing size", { let mut v = join(&[b"  ", &name, b" ", ty]); for d in &ds { v.push(b' '); v.extend_from_slice(d); } v }),
                4 => ("no size at all", join(&[b"  ", &name, b" ", ty])),
                5 => ("one digest too many", { let mut d = ds.clone(); let at = rng.us(d.len() + 1); d.insert(at, hx(rng)); make(&name, ty, &sz, &d) }),
                6 if !ds.is_empty() => ("one digest missing", { let mut d = ds.clone(); let at = rng.us(d.len()); d.remove(at); make(&name, ty, &sz, &d) }),
                7 if !ds.is_empty() => ("all digests missing", make(&name, ty, &sz, &[])),
                8 if !ds.is_empty() => ("short digest", { let mut d = ds.clone(); let at = rng.us(d.len()); let n = rng.us(64); d[at].truncate(n.max(1)); make(&name, ty, &sz, &d) }),
                9 if !ds.is_empty() => ("long digest", { let mut d = ds.clone(); let at = rng.us(d.len()); for _ in 0..rng.range(1, 70) { d[at].push(b'0'); } make(&name, ty, &sz, &d) }),
                10 | 11 if !ds.is_empty() => ("digit that is not hex", { let mut d = ds.clone(); let at = rng.us(d.len()); let i = rng.us(64); d[at][i] = *rng.pick(&[b'g', b'z', b'G', b':', b'/', b'@', b'`', b'-', b'_', 0, 0xff, b'\\', b'.']); make(&name, ty, &sz, &d) }),
                12 if !ds.is_empty() => ("doubled separator between digests", { let mut d = ds.clone(); let at = rng.us(d.len()); d[at].insert(0, b' '); make(&name, ty, &sz, &d) }),
                13 if ds.len() > 1 => ("missing separator between digests", { let mut d = ds.clone(); let x = d.remove(1); d[0].extend(x); make(&name, ty, &sz, &d) }),
                14 => ("doubled separator after the name", join(&[b"  ", &name, b"  ", ty, b" ", &sz])),
                15 => ("doubled separator before the size", join(&[b"  ", &name, b" ", ty, b"  ", &sz])),
                16 => ("missing separator before the size", { let mut v = join(&[b"  ", &name, b" ", ty, &sz]); for d in &ds { v.push(b' '); v.extend_from_slice(d); } v }),
                17 => ("name that is not a file name", make(rng.pick(&[&b"."[..], b"..", b"\\x2e", b"\\x2e\\x2e", b".\\x2e", b"a/b", b"/a", b"a\\x2fb", b"/", b"\\x2f", b"a/", b"../a"]), ty, &sz, &ds)),
                18 => ("empty name", make(b"", ty, &sz, &ds)),
                19 => ("three spaces at the start", join(&[b" ", &s])),
                20 => ("one space at the start", s[1..].to_vec()),
                21 => ("tab for a separator", make(&name, ty, &sz, &ds).into_iter().enumerate().map(|(i, c)| if i == 2 + name.len() { b'\t' } else { c }).collect()),
                22 => ("another field at the end", { let mut v = s.clone(); v.extend_from_slice(rng.pick(&[&b" x"[..], b" 0", b"  "])); v }),
                23 => ("no space at the start", { let v = s[2..].to_vec(); if v.starts_with(b"/") || v.starts_with(b"  ") { return None; } v }),
                _ => return None,
            }
        }
    })
}

fn c09(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let h = *rng.pick(&ALL_H);
    let (text, bs, lines) = random_index(&mut rng, h);
    let offs: Vec<usize> = std::iter::once(0).chain(text.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i + 1)).collect();
    let hl = offs[1];
    let frow = lines.len() + 2;
    // the undamaged text is complete
    let mut p = match Parser::new(Cursor::new(&text)) { Ok(p) => p, Err(e) => fail!("canonical text: {}", e) };
    check_complete(&mut p, &lines, h, bs)?;
    match cx.idx % 4 {
        0 => {
            // cut off at every byte, or at many
            let every = text.len() <= 1500;
            let n = if every { text.len() } else { 300 };
            for i in 0..n {
                let k = if every { i } else if i < 70 { text.len() - 1 - i } else { rng.us(text.len()) };
                let full = text[..k].iter().filter(|&&c| c == b'\n').count();
                let (good, row) = if k < hl { (0, 1) } else { (full - 1, full + 1) };
                refuse(cx, &text[..k], &lines, good, &[row], h, bs, &format!("cut off at byte {} of {}", k, text.len()))?;
                cx.count("truncations", 1);
            }
        }
        1 | 2 => {
            for _ in 0..12 {
                let i = rng.us(lines.len());
                let (what, new) = match break_line(&mut rng, &lines[i], i == 0) { Some(x) => x, None => continue };
                let mut t = text[..offs[i + 1]].to_vec();
                t.extend_from_slice(&new);
                t.push(b'\n');
                t.extend_from_slice(&text[offs[i + 2]..]);
                refuse(cx, &t, &lines, i, &[i + 2], h, bs, &format!("{}: {:?}", what, show_text(&new)))?;
                cx.count("damaged lines", 1);
                cx.seen("kinds of damage", what);
            }
        }
        _ => {
            let foot = text[offs[frow - 1]..text.len() - 1].to_vec();
            // footers
            for i in 0..10u64 {
                let (what, f): (&str, Vec<u8>) = match i {
                    0 => ("short footer", { let n = rng.range(1, 63) as usize; foot[..n].to_vec() }),
                    1 => ("long footer", [&foot[..], &b"0"[..]].concat()),
                    2 => ("two footers in a line", [&foot[..], b" ", &foot[..]].concat()),
                    3 => ("footer with a digit that is not hex", { let mut f = foot.clone(); let i = rng.us(64); f[i] = *rng.pick(&[b'g', b'G', b'z', b':', 0xff, b'\\', b'/', b'@', b'`']); if f[0] == b'/' { f[0] = b'g'; } f }),
                    4 => ("footer after a space", [&b" "[..], &foot[..]].concat()),
                    5 => ("footer of a longer hash", [&foot[..], &foot[..]].concat()),
                    6 => ("empty footer line", vec![]),
                    7 => ("footer with a carriage return", [&foot[..], &b"\r"[..]].concat()),
                    8 => ("footer after two spaces", [&b"  "[..], &foot[..]].concat()),
                    _ => ("header in place of the footer", header(h, bs)[..hl - 1].to_vec()),
                };
                let mut t = text[..offs[frow - 1]].to_vec();
                t.extend_from_slice(&f);
                t.push(b'\n');
                refuse(cx, &t, &lines, lines.len(), &[frow], h, bs, what)?;
                cx.count("damaged footers", 1);
                cx.seen("kinds of damage", what);
            }
            // something after the footer
            for i in 0..8u64 {
                let tail: Vec<u8> = match i {
                    0 => b"\n".to_vec(), 1 => b"x".to_vec(), 2 => b" ".to_vec(), 3 => b"/more\n".to_vec(), 4 => b"\0".to_vec(),
                    5 => [&foot[..], b"\n"].concat(), 6 => text.clone(), _ => { let n = rng.range(1, 9000) as usize; rng.bytes(n) }
                };
                let t = [&text[..], &tail[..]].concat();
                refuse(cx, &t, &lines, lines.len(), &[frow, frow + 1], h, bs, &format!("{} bytes after the footer", tail.len()))?;
                cx.count("data after the footer", 1);
            }
            // headers
            let bs_s = bs.to_string();
            let heads: Vec<String> = vec![
                format!("DIRSIGNATURE.v2 {} block_size={}", h.name(), bs), format!("DIRSIGNATURE.v {} block_size={}", h.name(), bs), format!("DIRSIGNATURE.v11 {} block_size={}", h.name(), bs),
                format!("DIRSIGNATURE {} block_size={}", h.name(), bs), format!("dirsignature.v1 {} block_size={}", h.name(), bs), format!("XDIRSIGNATURE.v1 {} block_size={}", h.name(), bs),
                format!("DIRSIGNATURE.v1 block_size={}", bs), format!("DIRSIGNATURE.v1 {}", h.name()), format!("DIRSIGNATURE.v1 {} {}", h.name(), bs), format!("DIRSIGNATURE.v1 {} block={}", h.name(), bs),
                format!("DIRSIGNATURE.v1 {} block_size=", h.name()), format!("DIRSIGNATURE.v1 {} block_size", h.name()), format!("DIRSIGNATURE.v1 {} block_size=0", h.name()), format!("DIRSIGNATURE.v1 {} block_size=-{}", h.name(), bs_s),
                format!("DIRSIGNATURE.v1 {} block_size={}k", h.name(), bs), format!("DIRSIGNATURE.v1 {} block_size=99999999999999999999", h.name()), format!("DIRSIGNATURE.v1 md5/128 block_size={}", bs), format!("DIRSIGNATURE.v1 sha512 block_size={}", bs),
                format!("DIRSIGNATURE.v1 {}x block_size={}", h.name(), bs), format!("DIRSIGNATURE.v1 {} block_size=0x10", h.name()), String::new(), "DIRSIGNATURE.v1".into(), "/".into(), "\u{feff}DIRSIGNATURE.v1 sha512/256 block_size=32768".into(),
                format!("DIRSIGNATURE.v1 {} block_size={}={}", h.name(), bs, bs), format!("DIRSIGNATURE.v1 {} block_size=={}", h.name(), bs), format!("DIRSIGNATURE.v1 {} block_size={}=", h.name(), bs),
                format!("DIRSIGNATURE.v1 {} block_size={},1", h.name(), bs), format!("DIRSIGNATURE.v1 {} block_size={}.0", h.name(), bs), format!("DIRSIGNATURE.v1 {} block_size=1_000", h.name()), format!("DIRSIGNATURE.v1 {} block_size=\u{663}", h.name()),
                format!("DIRSIGNATURE.v1 {} BLOCK_SIZE={}", h.name(), bs), format!("DIRSIGNATURE.v1 {} block_sizes={}", h.name(), bs), format!("DIRSIGNATURE.v1 {} xblock_size={}", h.name(), bs), format!("DIRSIGNATURE.v1 {} block_size:{}", h.name(), bs),
                format!("DIRSIGNATURE.v1 {}/1 block_size={}", h.name(), bs), format!("DIRSIGNATURE.v1 {},{} block_size={}", h.name(), h.name(), bs), format!("DIRSIGNATURE.v1 {} block_size={}", h.name().to_uppercase(), bs), format!("DIRSIGNATURE.v1 /{} block_size={}", h.name(), bs),
                format!("DIRSIGNATURE.v1 {} block_size={}", &h.name()[..h.name().len() - 1], bs), format!("DIRSIGNATURE.v1 {} block_size={}", &h.name()[1..], bs), format!("DIRSIGNATURE.v1 block_size={} {}", bs, h.name()), format!("{} DIRSIGNATURE.v1 block_size={}", h.name(), bs),
                format!("DIRSIGNATURE.v1{} block_size={}", h.name(), bs), format!("DIRSIGNATURE.v1 {}block_size={}", h.name(), bs), format!("DIRSIGNATURE.v1.{} block_size={}", h.name(), bs), format!("DIRSIGNATURE,v1 {} block_size={}", h.name(), bs),
                format!("DIRSIGNATUREv1 {} block_size={}", h.name(), bs), format!("DIRSIGNATURE .v1 {} block_size={}", h.name(), bs), format!("DIRSIGNATURE. v1 {} block_size={}", h.name(), bs), format!("DIRSIGNATURES.v1 {} block_size={}", h.name(), bs),
            ];
            let versions = ["v1.1", "v1.", "v1..", "v1.v1", "V1", "v01", "v1a", "v1-", "1", "v", "v1\u{e9}", ".v1", "v1.0.0", "v1=1", "v1/", "v0", "v3", "v1,v2", "v1\0", "v-1", "v1:"];
            for hd in heads.into_iter().chain(versions.iter().map(|v| format!("DIRSIGNATURE.{} {} block_size={}", v, h.name(), bs))) {
                let t = [hd.as_bytes(), b"\n", &text[hl..]].concat();
                refuse(cx, &t, &lines, 0, &[1], h, bs, &format!("header {:?}", hd))?;
                cx.count("damaged headers", 1);
            }
        }
    }
    cx.sample(|| show_text(&text));
    Ok(())
}

// ---------------------------------------------------------------- C10

pub static C10: Prop = Prop {
    id: "C10", level: "exploration",
    rule: "kinds made from random trees and from neighbours of their paths; every pair and random triples compared under the order, against the model order; the entries of trees sorted and compared with the order of a scan; non-trivial: a set of at least three kinds, distinct by set",
    quick: 80000, thorough: 2400000, quick_s: 45, thorough_s: 600, run: c10,
    assumptions: &["valid kinds: absolute paths without .., files other than the root"],
    need: &["pairs", "triples", "sorted entries", "entries of scans in order"],
};

fn c10(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let h = H::Sha;
    let (lines, _) = random_doc(&mut rng, h);
    // 1. sorting
    let mut kinds: Vec<EntryKind<PathBuf>> = lines.iter().map(kind_of).collect();
    rng.shuffle(&mut kinds);
    kinds.sort();
    for (k, l) in kinds.iter().zip(&lines) {
        ensure!(kkey(k) == line_key(l), "sorted: {:?} where the index has {:?}", k, show(&full_path(l)));
        cx.count("sorted entries", 1);
    }
    // 2. pairs with neighbours
    let mut set: Vec<EntryKind<PathBuf>> = (0..rng.range(3, 24)).map(|_| some_kind(&mut rng, &lines)).collect();
    if rng.chance(1, 3) { let x = set[0].cloned(); set.push(x); }
    let mut fp = 0;
    for a in &set {
        fp = crate::rng::mix(fp ^ hash_bytes(a.path().as_os_str().as_bytes()) ^ matches!(a, EntryKind::Dir(_)) as u64);
        for b in &set {
            let c = a.cmp(b);
            let m = kkey(a).cmp(&kkey(b));
            ensure!(c == m, "{:?} and {:?} compare as {:?}, in an index they are {:?}", a, b, c, m);
            ensure!(b.cmp(a) == c.reverse(), "{:?} and {:?}: {:?} one way, {:?} the other", a, b, c, b.cmp(a));
            ensure!(a.partial_cmp(b) == Some(c), "{:?} and {:?}: partial_cmp says {:?}", a, b, a.partial_cmp(b));
            ensure!((a == b) == (c == std::cmp::Ordering::Equal), "{:?} and {:?}: equal {}, order {:?}", a, b, a == b, c);
            // the other path types
            ensure!(a.as_ref().cmp(&b.as_ref()) == c, "{:?} and {:?}: references compare differently", a, b);
            let os = |k: &EntryKind<PathBuf>| match k { EntryKind::Dir(p) => EntryKind::Dir(p.clone().into_os_string()), EntryKind::File(p) => EntryKind::File(p.clone().into_os_string()) };
            ensure!(os(a).cmp(&os(b)) == c, "{:?} and {:?}: OsStrings compare differently", a, b);
            cx.count("pairs", 1);
        }
    }
    for _ in 0..40 {
        let (a, b, c) = (rng.pick(&set).cloned(), rng.pick(&set).cloned(), rng.pick(&set).cloned());
        if a <= b && b <= c { ensure!(a <= c, "{:?} <= {:?} <= {:?} but not the first and the last", a, b, c); cx.count("triples", 1); }
        if a < b && b < c { ensure!(a < c, "{:?} < {:?} < {:?} but not the first and the last", a, b, c); }
    }
    cx.eval();
    cx.nontrivial(fp);
    cx.sample(|| format!("{:?}", set.iter().take(5).collect::<Vec<_>>()));
    // 3. the order of a real scan
    if cx.idx % 20 == 0 || cx.idx < util::SPECIALS {
        let c = util::cfg(&mut rng);
        let f = if cx.idx < util::SPECIALS {
            let (_, mut t) = util::special(cx.idx, &mut rng).unwrap();
            t.truncate(1);
            util::put(cx, t)
        } else {
            let mut k = util::knobs(&mut rng);
            k.max_file = k.max_file.min(5000);
            util::forest(cx, &k, 1)
        };
        let mut sess = util::conditions(&mut rng, false);
        sess.shuffle = Some(rng.next());
        let out = util::scan_ok(cx, &c, &f.roots, &sess)?;
        let ix = match read_index(&out, false) { Ok(i) => i, Err(b) => fail!("line {}: {}", b.row, b.msg) };
        let ks: Vec<EntryKind<PathBuf>> = ix.lines.iter().map(kind_of).collect();
        for w in ks.windows(2) {
            ensure!(w[0] < w[1], "a scan writes {:?} before {:?}, which is not smaller", w[0], w[1]);
            cx.count("entries of scans in order", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

pub static C11: Prop = Prop {
    id: "C11", level: "exploration",
    rule: "random canonical texts and random sequences of next() and advance() to kinds that exist, do not exist, lie before, between and beyond, checked call by call against a cursor over the list of lines; non-trivial with at least one hit and one miss, distinct by text and calls",
    quick: 300000, thorough: 9000000, quick_s: 45, thorough_s: 600, run: c11,
    assumptions: &[],
    need: &["hits", "misses", "entries from next", "seeks backwards", "long skips"],
};

#[derive(Debug)]
pub enum Op { Next, To(EntryKind<PathBuf>) }

pub fn ops(rng: &mut Rng, lines: &[Line], n: usize) -> Vec<Op> {
    let mut v = Vec::new();
    let mut at = 0usize;
    for _ in 0..n {
        let o = match rng.below(10) {
            0..=2 => Op::Next,
            3..=6 if !lines.is_empty() => {
                // mostly forwards, in small steps
                at = (at + rng.us(4)).min(lines.len() - 1);
                if rng.chance(1, 3) { Op::To(some_kind(rng, &lines[at..(at + 3).min(lines.len())])) } else { Op::To(kind_of(&lines[at])) }
            }
            _ => Op::To(some_kind(rng, lines)),
        };
        v.push(o);
    }
    v
}

/// What a call must return on an ordered list; moves the cursor
pub fn model_step(lines: &[Line], pos: &mut usize, op: &Op) -> Option<usize> {
    match op {
        Op::Next => if *pos < lines.len() { *pos += 1; Some(*pos - 1) } else { None },
        Op::To(k) => {
            let kk = kkey(k);
            while *pos < lines.len() && line_key(&lines[*pos]) < kk { *pos += 1; }
            if *pos < lines.len() && line_key(&lines[*pos]) == kk { *pos += 1; Some(*pos - 1) } else { None }
        }
    }
}

/// Very long indexes, on a small stack: nothing may depend on how many lines are passed by
fn long_seeks(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[60_000usize, 150_000, 400_000]);
    let per = *rng.pick(&[1usize, 2, 50, 1_000_000]);
    let mut t = header(H::Sha, BS);
    for i in 0..n {
        if i % per == 0 { t.extend(if i == 0 { b"/\n".to_vec() } else { format!("/d{:07}\n", i).into_bytes() }); }
        t.extend(match i % 3 { 0 => format!("  n{:07} s t\n", i), 1 => format!("  n{:07} f 0\n", i), _ => format!("  n{:07} x 0\n", i) }.into_bytes());
    }
    t.extend(hex(&[9; 32]).into_bytes());
    t.push(b'\n');
    let name = |i: usize| { let d = i / per * per; path(if d == 0 { format!("/n{:07}", i) } else { format!("/d{:07}/n{:07}", d, i) }.as_bytes()) };
    let mut at: Vec<usize> = (0..rng.below(3)).map(|_| rng.us(n)).collect();
    at.push(n - 1);
    at.sort();
    at.dedup();
    let miss = rng.chance(1, 2);
    let (first, at2) = (name(at[0]), at.clone());
    let ch = if rng.chance(1, 2) { Chunk::All } else { Chunk::Fixed(8192) };
    let want: Vec<PathBuf> = at.iter().map(|i| name(*i)).collect();
    let r = std::thread::Builder::new().stack_size(256 << 10).spawn(move || -> Result<u64, String> {
        let mut done = 0;
        for how in 0..3 {
            let ps = || Parser::new(Src::new(&t, ch)).map_err(|e| e.to_string());
            if how < 2 {
                let mut p = ps()?;
                let mut it = p.iter();
                if how == 0 {
                    for w in &want {
                        match it.advance(&EntryKind::File(w)) { Some(Ok(e)) if e.path() == w => done += 1, x => return Err(format!("{:?} gives {:?}", w, x.map(|e| e.map(|e| e.path().to_path_buf()).map_err(|e| e.to_string())))) }
                    }
                    if miss { if it.advance(&EntryKind::Dir("/z")).is_some() { return Err("/z found".into()); } }
                    if it.next().is_some() { return Err("an entry behind the last".into()); }
                } else {
                    let k = it.by_ref().take(n + n / per + 5).filter(|e| e.is_ok()).count();
                    if k != n + (n + per - 1) / per { return Err(format!("{} entries", k)); }
                }
            } else {
                let mut m = MergedSignatures::new(vec![(0, ps()?), (1, ps()?)]).map_err(|e| e.to_string())?;
                let mut it = m.iter();
                for w in &want {
                    let v = it.advance(&EntryKind::File(w));
                    if v.len() != 2 || v.iter().any(|(_, e)| e.as_ref().ok().map_or(true, |e| e.path() != w)) { return Err(format!("{:?} gives {} entries in a merge", w, v.len())); }
                    done += 1;
                }
                if it.next().is_some() { return Err("a group behind the last".into()); }
            }
        }
        Ok(done)
    }).expect("harness: thread").join();
    cx.eval();
    let what = format!("index of {} entries, {} to a directory, seeking {:?}", n, per, at2);
    match r {
        Ok(Ok(k)) => cx.count("long skips", k),
        Ok(Err(m)) => fail!("{} ({})", m, what),
        Err(_) => fail!("panic: {} ({})", crate::runner::LAST_PANIC.lock().unwrap(), what),
    }
    let _ = first;
    cx.max("lines passed by", n as u64);
    cx.nontrivial(hash_bytes(what.as_bytes()));
    Ok(())
}

fn c11(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    if cx.idx % 20_000 == 11 { return long_seeks(cx, &mut rng); }
    let h = *rng.pick(&ALL_H);
    let (text, bs, lines) = document(cx, &mut rng, h, 0);
    let n = rng.range(1, 2 * lines.len().min(2000) as u64 + 6) as usize;
    let mut os = ops(&mut rng, &lines, n);
    if lines.len() > 1000 {
        // long skips, in order
        let mut at: Vec<usize> = (0..rng.range(1, 30)).map(|_| rng.us(lines.len())).collect();
        at.sort();
        os = at.into_iter().flat_map(|i| vec![Op::To(kind_of(&lines[i])), Op::Next]).collect();
    }
    let mut p = match Parser::new(Src::new(&text, chunks(&mut rng))) { Ok(p) => p, Err(e) => fail!("{}", e) };
    let mut it = p.iter();
    let mut pos = 0;
    let (mut hits, mut misses) = (0, 0);
    let mut log = String::new();
    for (i, o) in os.iter().enumerate() {
        let before = pos;
        let want = model_step(&lines, &mut pos, o);
        let got = match o { Op::Next => it.next(), Op::To(k) => it.advance(k) };
        if log.len() < 400 { log.push_str(&format!("{:?}; ", o)); }
        match (got, want) {
            (None, None) => {}
            (Some(Ok(e)), Some(w)) => if let Some(d) = entry_diff(&e, &lines[w], h, bs) { fail!("call {} {:?}: {} (calls: {})", i, o, d, log); },
            (Some(Ok(e)), None) => fail!("call {} {:?} returns {:?}, want nothing (calls: {})", i, o, e.path(), log),
            (Some(Err(e)), _) => fail!("call {} {:?} fails: {} (calls: {})", i, o, e, log),
            (None, Some(w)) => fail!("call {} {:?} returns nothing, want line {} {:?} (calls: {})", i, o, lines[w].row, show(&full_path(&lines[w])), log),
        }
        match o {
            Op::Next => cx.count("entries from next", want.is_some() as u64),
            Op::To(_) => {
                if want.is_some() { hits += 1 } else { misses += 1 }
                if pos == before && want.is_none() && pos < lines.len() { cx.count("seeks backwards", 1); }
            }
        }
    }
    // the rest is still there
    while pos < lines.len() {
        match it.next() {
            Some(Ok(e)) => if let Some(d) = entry_diff(&e, &lines[pos], h, bs) { fail!("the rest: {} (calls: {})", d, log); },
            x => fail!("the rest: {:?} where line {} is left (calls: {})", x.map(|r| r.map(|e| e.path().to_path_buf())), lines[pos].row, log),
        }
        pos += 1;
    }
    ensure!(it.next().is_none(), "an entry after the last one (calls: {})", log);
    ensure!(it.advance(&EntryKind::Dir(Path::new("/"))).is_none(), "seeking finds something after the end (calls: {})", log);
    cx.eval();
    cx.count("hits", hits);
    cx.count("misses", misses);
    if hits > 0 && misses > 0 { cx.nontrivial(hash_bytes(&text) ^ hash_bytes(log.as_bytes())); }
    cx.sample(|| format!("{} lines; {}", lines.len(), log));
    Ok(())
}

// ---------------------------------------------------------------- C12

pub static C12: Prop = Prop {
    id: "C12", level: "exploration",
    rule: "two to six random indexes over overlapping trees merged (from memory and from files), iterated and sought in random order, checked group by group against cursors over the lists of lines; plus sets that differ in hash type or block size; non-trivial when two indexes share a kind, distinct by texts and calls",
    quick: 120000, thorough: 3600000, quick_s: 45, thorough_s: 600, run: c12,
    assumptions: &["no index contains an entry twice"],
    need: &["merges of many indexes", "groups", "shared groups", "entries", "seeks", "merges of damaged indexes", "refused for hash type", "refused for block size", "merges of files"],
};

fn c12(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let h = *rng.pick(&ALL_H);
    let bs = if rng.chance(1, 2) { BS } else { rng.range(1, 100_000) };
    let mut n = *rng.pick(&[0usize, 1, 2, 2, 2, 3, 3, 4, 6]);
    let mut k = doc_knobs(&mut rng);
    if cx.idx % 300 == 17 {
        n = *rng.pick(&[9usize, 17, 33, 63, 64, 65, 66, 100, 129, 257]);
        k.nodes = k.nodes.min(8);
        cx.count("merges of many indexes", 1);
    }
    cx.max("indexes merged at once", n as u64);
    let base = gen::tree(&mut rng, &k);
    let mut docs = Vec::new();
    for i in 0..n {
        let t = if i == 0 { base.clone() } else { gen::overlapping(&mut rng, &base, &k) };
        // the same base as others: take most of it
        let m = gen::merged(&[t]);
        let mut l = lines_of(&m, &mut rng, h, bs);
        if rng.chance(1, 3) && l.len() > 2 {
            // drop some entries (not directories)
            l.retain(|x| x.kind == LKind::Dir || rng.chance(2, 3));
        }
        for (j, x) in l.iter_mut().enumerate() { x.row = j + 2; }
        docs.push(l);
    }
    let odd = if n >= 2 { rng.below(6) } else { 9 };
    let mut hs = vec![h; n];
    let mut bss = vec![bs; n];
    if odd == 0 { let i = rng.us(n); hs[i] = ALL_H[(ALL_H.iter().position(|x| *x == h).unwrap() + 1) % 3]; }
    if odd == 1 { let i = rng.us(n); bss[i] = bs + 1; for l in docs[i].iter_mut() { if let LKind::File { ref mut size, ref digests, .. } = l.kind { *size = digests.len() as u64 * (bs + 1); } } }
    let texts: Vec<Vec<u8>> = (0..n).map(|i| text_of(&docs[i], hs[i], bss[i])).collect();
    cx.eval();
    let files = cx.idx % 4 == 0;
    let dir = if files { Some(cx.dir()) } else { None };
    let chs: Vec<Chunk> = (0..n).map(|_| chunks(&mut rng)).collect();
    // calls, drawn before
    let all: Vec<Line> = { let mut m: BTreeMap<Key, Line> = BTreeMap::new(); for d in &docs { for l in d { m.insert(line_key(l), l.clone()); } } m.into_values().collect() };
    let pure = rng.chance(1, 3);
    let total = docs.iter().map(|d| d.len()).sum::<usize>();
    let os = if pure { (0..total + 2).map(|_| Op::Next).collect() } else { ops(&mut rng, &all, total + 4) };
    cx.count("entries", total as u64);
    let fp = texts.iter().fold(os.len() as u64, |a, t| crate::rng::mix(a ^ hash_bytes(t)));
    if docs.iter().map(|d| d.len()).sum::<usize>() > all.len() { cx.nontrivial(fp); }
    cx.sample(|| format!("{} indexes of {:?} lines, {} distinct kinds, {} calls", n, docs.iter().map(|d| d.len()).collect::<Vec<_>>(), all.len(), os.len()));

    fn refuse(e: MergeError, hs: &[H], bss: &[u64], cx: &mut Ctx) -> R {
        match e {
            MergeError::HashTypesMismatch(v) => {
                ensure!(hs.iter().any(|h| *h != hs[0]), "refused for hash types that are equal: {:?}", v);
                ensure!(v == hs.iter().map(|h| h.ht()).collect::<Vec<_>>(), "the hash types found are listed as {:?}, want {:?}", v, hs);
                cx.count("refused for hash type", 1);
            }
            MergeError::BlockSizesMismatch(v) => {
                ensure!(bss.iter().any(|b| *b != bss[0]), "refused for block sizes that are equal: {:?}", v);
                ensure!(v == bss, "the block sizes found are listed as {:?}, want {:?}", v, bss);
                cx.count("refused for block size", 1);
            }
            e => fail!("merge fails: {}", e),
        }
        Ok(())
    }
    let differ = hs.iter().any(|x| *x != hs[0]) || bss.iter().any(|x| *x != bss[0]);

    if !differ && n > 0 && rng.chance(1, 4) { return damaged_merge(cx, &mut rng, &docs, &texts, h, bs); }

    fn drive<K: PartialEq + std::fmt::Debug, B: BufRead>(cx: &mut Ctx, mut m: MergedSignatures<K, B>, keys: &[K], docs: &[Vec<Line>], os: &[Op], h: H, bs: u64) -> R {
        let mut it = m.iter();
        let mut pos = vec![0usize; docs.len()];
        let mut last: Option<Key> = None;
        for (i, o) in os.iter().enumerate() {
            let got: Option<Vec<_>> = match o { Op::Next => it.next(), Op::To(k) => Some(it.advance(k)) };
            let mut want: Vec<(usize, usize)> = Vec::new();
            match o {
                Op::Next => {
                    let min = (0..docs.len()).filter(|j| pos[*j] < docs[*j].len()).map(|j| line_key(&docs[j][pos[j]])).min();
                    if let Some(ref mk) = min {
                        for j in 0..docs.len() { if pos[j] < docs[j].len() && line_key(&docs[j][pos[j]]) == *mk { want.push((j, pos[j])); pos[j] += 1; } }
                        if let Some(ref l) = last { ensure!(l < mk, "the groups are not ascending"); }
                        last = min;
                    } else { last = None; }
                    cx.count("groups", !want.is_empty() as u64);
                    cx.count("shared groups", (want.len() > 1) as u64);
                }
                Op::To(_) => {
                    for j in 0..docs.len() { if let Some(w) = model_step(&docs[j], &mut pos[j], o) { want.push((j, w)); } }
                    last = None;
                    cx.count("seeks", 1);
                }
            }
            let got = match got {
                None => { ensure!(want.is_empty(), "call {} {:?}: the end, want {} entries", i, o, want.len()); continue; }
                Some(g) => g,
            };
            if let Op::Next = o { ensure!(!got.is_empty(), "call {}: an empty group", i); }
            ensure!(got.len() == want.len(), "call {} {:?}: {} entries {:?}, want those of {:?}", i, o, got.len(), got.iter().map(|(k, e)| format!("{:?} {:?}", k, e.as_ref().map(|e| e.path().to_path_buf()).map_err(|e| e.to_string()))).collect::<Vec<_>>(), want.iter().map(|(j, _)| &keys[*j]).collect::<Vec<_>>());
            for ((k, e), (j, w)) in got.iter().zip(&want) {
                ensure!(**k == keys[*j], "call {} {:?}: key {:?}, want {:?}", i, o, k, keys[*j]);
                match e {
                    Ok(e) => if let Some(d) = entry_diff(e, &docs[*j][*w], h, bs) { fail!("call {} {:?} index {}: {}", i, o, j, d); },
                    Err(e) => fail!("call {} {:?} index {}: {}", i, o, j, e),
                }
            }
        }
        // whatever is left comes once
        let mut left: usize = (0..docs.len()).map(|j| docs[j].len() - pos[j]).sum();
        while let Some(g) = it.next() {
            ensure!(!g.is_empty() && g.len() <= left, "{} entries where {} are left", g.len(), left);
            for (k, e) in &g {
                let j = match keys.iter().position(|x| x == *k) { Some(j) => j, None => fail!("unknown key {:?}", k) };
                let e = match e { Ok(e) => e, Err(e) => fail!("index {}: {}", j, e) };
                ensure!(pos[j] < docs[j].len(), "too many entries of index {}", j);
                if let Some(d) = entry_diff(e, &docs[j][pos[j]], h, bs) { fail!("the rest of index {}: {}", j, d); }
                pos[j] += 1;
            }
            left -= g.len();
        }
        ensure!(left == 0, "{} entries never come", left);
        Ok(())
    }

    if let Some(d) = dir {
        let mut b = FileMergeBuilder::new();
        let mut keys = Vec::new();
        for (i, t) in texts.iter().enumerate() {
            let f = d.join(format!("ix{}", i));
            std::fs::write(&f, t).expect("harness: write");
            let key = PathBuf::from(format!("/base/{}", i));
            b.add(&key, &f);
            keys.push(key);
        }
        if rng.chance(1, 10) {
            b.add("/x", d.join("missing"));
            match b.finalize() {
                Err(MergeError::Io(m, e)) => ensure!(e.kind() == ErrorKind::NotFound && m.contains("missing"), "missing file: {} {}", m, e),
                Err(e) => fail!("missing file: {}", e),
                Ok(_) => fail!("a missing index file is not reported"),
            }
            return Ok(());
        }
        cx.count("merges of files", 1);
        match b.finalize() {
            Ok(m) => { ensure!(!differ, "indexes of different hash types {:?} or block sizes {:?} are merged", hs, bss); drive(cx, m, &keys, &docs, &os, h, bs) }
            Err(e) => { if !differ { fail!("merge of files fails: {}", e); } refuse(e, &hs, &bss, cx) }
        }
    } else {
        let mut ps = Vec::new();
        for (i, t) in texts.iter().enumerate() {
            match Parser::new(Src::new(t, chs[i])) { Ok(p) => ps.push((i * 10, p)), Err(e) => fail!("{}", e) }
        }
        let keys: Vec<usize> = (0..n).map(|i| i * 10).collect();
        match MergedSignatures::new(ps) {
            Ok(m) => { ensure!(!differ, "indexes of different hash types {:?} or block sizes {:?} are merged", hs, bss); drive(cx, m, &keys, &docs, &os, h, bs) }
            Err(e) => { if !differ { fail!("merge fails: {}", e); } refuse(e, &hs, &bss, cx) }
        }
    }
}

/// Some of the indexes are damaged: what comes under their key is what the
/// index gives alone, the others are not disturbed
fn damaged_merge(cx: &mut Ctx, rng: &mut Rng, docs: &[Vec<Line>], texts: &[Vec<u8>], h: H, bs: u64) -> R {
    let n = docs.len();
    let mut texts: Vec<Vec<u8>> = texts.to_vec();
    let mut good: Vec<usize> = docs.iter().map(|d| d.len()).collect();
    let mut bad = vec![false; n];
    let mut what = String::new();
    for _ in 0..rng.range(1, 2) {
        let j = rng.us(n);
        if bad[j] { continue; }
        let offs: Vec<usize> = std::iter::once(0).chain(texts[j].iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i + 1)).collect();
        if docs[j].is_empty() || rng.chance(1, 4) {
            let k = offs[1] + rng.us(texts[j].len() - offs[1]);
            good[j] = texts[j][..k].iter().filter(|&&c| c == b'\n').count() - 1;
            texts[j].truncate(k);
            what.push_str(&format!("index {} cut off at byte {}; ", j, k));
        } else {
            let i = rng.us(docs[j].len());
            let (w, new) = match break_line(rng, &docs[j][i], i == 0) { Some(x) => x, None => continue };
            let mut t = texts[j][..offs[i + 1]].to_vec();
            t.extend_from_slice(&new);
            t.push(b'\n');
            t.extend_from_slice(&texts[j][offs[i + 2]..]);
            texts[j] = t;
            good[j] = i;
            what.push_str(&format!("index {} line {}: {}; ", j, i + 2, w));
        }
        bad[j] = true;
    }
    if !bad.contains(&true) { return Ok(()); }
    let say = |r: &Result<Entry, ParseError>| match r { Ok(e) => format!("{:?}", e), Err(e) => format!("error {}", e) };
    let alone: Vec<Vec<String>> = texts.iter().map(|t| {
        let mut p = Parser::new(Cursor::new(t)).unwrap_or_else(|e| panic!("the header is refused: {}", e));
        p.iter().take(rows(t) + 3).map(|r| say(&r)).collect()
    }).collect();
    let mut ps = Vec::new();
    for (j, t) in texts.iter().enumerate() {
        match Parser::new(Src::new(t, chunks(rng))) { Ok(p) => ps.push((j, p)), Err(e) => fail!("{}{}", what, e) }
    }
    let mut m = match MergedSignatures::new(ps) { Ok(m) => m, Err(e) => fail!("{}merge fails: {}", what, e) };
    let mut it = m.iter();
    let limit: usize = texts.iter().map(|t| rows(t) + 3).sum();
    if rng.chance(2, 3) {
        let mut got: Vec<Vec<String>> = vec![vec![]; n];
        let mut last: Option<Key> = None;
        let mut broken = false;
        let mut groups = 0;
        for g in &mut it {
            groups += 1;
            ensure!(groups <= limit, "{}the merge does not end", what);
            ensure!(!g.is_empty(), "{}an empty group", what);
            let mut min: Option<Key> = None;
            for w in g.windows(2) { ensure!(w[0].0 < w[1].0, "{}keys {} and {} in one group", what, w[0].0, w[1].0); }
            for (k, e) in &g {
                got[**k].push(say(e));
                match e {
                    Err(_) => { ensure!(bad[**k], "{}an error under the key of index {}, which is not damaged: {:?}", what, k, e.as_ref().map(|_| ()).map_err(|e| e.to_string())); broken = true; }
                    Ok(e) if !bad[**k] || !broken => {
                        let x = kkey(&e.kind().cloned());
                        if let Some(ref y) = min { ensure!(x == *y || broken, "{}a group with {:?} and {:?}", what, x, y); }
                        min = Some(x);
                    }
                    Ok(_) => {}
                }
            }
            if let Some(x) = min {
                if let Some(ref l) = last { ensure!(*l < x || broken, "{}the groups are not ascending", what); }
                last = Some(x);
            }
        }
        for j in 0..n {
            if got[j] != alone[j] {
                let i = (0..got[j].len().max(alone[j].len())).find(|&i| got[j].get(i) != alone[j].get(i)).unwrap();
                fail!("{}under the key of index {} item {} is {:?}, alone it is {:?}", what, j, i, got[j].get(i), alone[j].get(i));
            }
        }
    } else {
        // seeking beyond everything reports each damage, and nothing else
        let end = EntryKind::Dir(path(&[b'/'].iter().cloned().chain(std::iter::repeat(0xff).take(300)).collect::<Vec<u8>>()));
        let mut had = vec![false; n];
        if rng.chance(1, 2) {
            let g = it.next();
            for (k, e) in g.unwrap_or_default() { if e.is_err() { ensure!(bad[*k] && good[*k] == 0, "{}index {}: error too early", what, k); had[*k] = true; } }
        }
        let g = it.advance(&end);
        let mut seen = vec![0usize; n];
        for (k, e) in &g {
            seen[**k] += 1;
            ensure!(e.is_err(), "{}index {}: seeking beyond the end finds {:?}", what, k, e.as_ref().map(|e| e.path().to_path_buf()).map_err(|e| e.to_string()));
            ensure!(bad[**k], "{}index {} reports an error, the damage is elsewhere", what, k);
        }
        for j in 0..n { ensure!(seen[j] == bad[j] as usize || had[j] && seen[j] < 2, "{}index {}: {} errors from seeking over the damage", what, j, seen[j]); }
    }
    cx.count("merges of damaged indexes", 1);
    Ok(())
}

// ---------------------------------------------------------------- C15

pub static C15: Prop = Prop {
    id: "C15", level: "fault_enumeration",
    rule: "random canonical texts of all hash types through readers with scripted chunks and interruptions; each also cut off at every byte and with damaged header or footer; non-trivial always, distinct by text",
    quick: 100000, thorough: 3000000, quick_s: 45, thorough_s: 600, run: c15,
    assumptions: &["the reader is at its start", "free zone: what follows the hash type in the header, upper-case digits in the footer"],
    need: &["footers", "truncations", "damaged", "interrupted reads", "read errors", "vast indexes"],
};

/// An index of `len` bytes of which only the ends exist
struct Vast<'a> { text: &'a [u8], len: u64, pos: u64, cut: Cutter, calls: u64, seek_err: bool }

impl<'a> std::io::Read for Vast<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls > 1_000_000 { panic!("VH-LOGICAL: a million reads of an index of {} bytes", self.len); }
        let room = self.len.saturating_sub(self.pos).min(buf.len() as u64) as usize;
        let n = self.cut.cut(room);
        let head = self.text.iter().position(|&c| c == b'\n').unwrap() as u64;
        let end = self.text.len() as u64;
        for b in &mut buf[..n] {
            *b = if self.pos <= head { self.text[self.pos as usize] }
                else if self.len - self.pos <= end - head { self.text[(end - (self.len - self.pos)) as usize] }
                else { b"  aaaaa f 0\n"[(self.pos % 12) as usize] };
            self.pos += 1;
        }
        Ok(n)
    }
}

impl<'a> std::io::Seek for Vast<'a> {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        if self.seek_err { self.calls += 1; return Err(std::io::Error::new(ErrorKind::Other, MARK)); }
        let p = match to { Start(n) => n as i128, End(n) => self.len as i128 + n as i128, Current(n) => self.pos as i128 + n as i128 };
        if p < 0 || p > u64::MAX as i128 { return Err(ErrorKind::InvalidInput.into()); }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

fn c15(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let h = ALL_H[cx.idx as usize % 3];
    let (text, bs, lines) = match rng.below(if cx.idx < 2 * GIANTS { 1 } else { 12 }) {
        0 if cx.idx >= 2 * GIANTS => (text_of(&[], h, 1), 1, vec![]),
        1 => { let bs = block_size(&mut rng); let l = vec![Line { dir: b"/".to_vec(), name: vec![], kind: LKind::Dir, row: 2 }]; (text_of(&l, h, bs), bs, l) }
        _ => document(cx, &mut rng, h, 0),
    };
    let want = read_index(&text, true).map(|i| i.footer.to_vec()).unwrap_or_else(|b| { if lines.is_empty() { let n = header(h, bs).len(); h.digest(&text[n..n]).to_vec() } else { panic!("harness: {:?}", b) } });
    for _ in 0..4 {
        let mut s = Src::new(&text, chunks(&mut rng));
        if rng.chance(1, 2) { s.intr = rng.range(2, 5); }
        match get_hash(&mut s) {
            Ok(v) => ensure!(v == want, "the hash is {}, the footer {}", hex(&v), hex(&want)),
            Err(e) => fail!("a complete index of {} bytes ({}) is refused: {:?}", text.len(), h.name(), e),
        }
        cx.eval();
        cx.count("footers", 1);
        cx.count("interrupted reads", s.interrupts);
    }
    if cx.idx % 50 == 0 {
        let d = cx.dir();
        let p = d.join("ix");
        std::fs::write(&p, &text).expect("harness: write");
        let mut f = std::fs::File::open(&p).expect("harness: open");
        match get_hash(&mut f) { Ok(v) => ensure!(v == want, "file: the hash is {}, the footer {}", hex(&v), hex(&want)), Err(e) => fail!("file: {:?}", e) }
    }
    // the same head and tail with up to 2^62 bytes of lines between them
    for _ in 0..2 {
        let e = rng.range(12, 62);
        let len = (1u64 << e) + rng.range(0, 200) * rng.below(2);
        let len = if rng.chance(1, 4) { (len - 200).max(text.len() as u64) } else { len.max(text.len() as u64) };
        let mut v = Vast { text: &text, len, pos: 0, cut: Cutter::new(chunks(&mut rng)), calls: 0, seek_err: false };
        match get_hash(&mut v) {
            Ok(x) => ensure!(x == want, "an index of {} bytes: the hash is {}, the footer {}", len, hex(&x), hex(&want)),
            Err(e) => fail!("a complete index of {} bytes ({}) is refused: {:?}", len, h.name(), e),
        }
        v.pos = 0; v.seek_err = true; v.calls = 0;
        match get_hash(&mut v) {
            Ok(x) => ensure!(x == want, "the reader can't seek, the hash is {}", hex(&x)),
            Err(_) => {}
        }
        cx.eval();
        cx.count("vast indexes", 1);
    }
    cx.nontrivial(hash_bytes(&text));
    let bad = |t: &[u8], what: String, rng: &mut Rng| -> R {
        match get_hash(&mut Src::new(t, chunks(rng))) {
            Ok(v) => fail!("{}: the hash is {}, want an error: {:?}", what, hex(&v), show_text(t)),
            Err(_) => Ok(()),
        }
    };
    let every = text.len() < 1500;
    for i in 0..if every { text.len() } else { 150 } {
        let k = if every { i } else if i < 80 { text.len() - 1 - i } else { rng.us(text.len()) };
        bad(&text[..k], format!("cut off at byte {} of {}", k, text.len()), &mut rng)?;
        cx.count("truncations", 1);
        cx.eval();
    }
    let n = text.len();
    for i in 0..30u64 {
        let mut t = text.clone();
        let what = match i {
            0 => { t.push(b'\n'); "a newline after the footer" }
            1 => { t.push(b'0'); "a byte after the footer" }
            2 => { t[n - 1] = b' '; "no newline after the footer" }
            3 => { t[n - 66] = b' '; "no newline before the footer" }
            4 => { t.remove(n - 30); "a digit of the footer missing" }
            5 => { t.insert(n - 30, b'0'); "a digit too many" }
            6 => { t[0] = b'd'; "magic" }
            7 => { t[14] = b'2'; "version" }
            8 => { t.splice(16..16 + h.name().len(), b"md5/128".iter().cloned()); "hash type" }
            9 => { t.remove(15); "no space after the version" }
            10 => { t.drain(..text.iter().position(|&c| c == b'\n').unwrap() + 1); "no header" }
            11 => { t.insert(0, b' '); "space before the header" }
            12 => { t[16] = b'X'; "hash type" }
            13 => { t.extend_from_slice(&text[n - 65..]); t[n - 1] = b' '; "two digests in the last line" }
            _ => { let p = n - 65 + rng.us(64); t[p] = *rng.pick(&[b'g', b'z', b':', b'/', b'@', b'`', b' ', b'\n', 0, 0xff, b'-', b'G', b'\\']); "a byte of the footer that is not a digit" }
        };
        bad(&t, what.to_string(), &mut rng)?;
        cx.count("damaged", 1);
        cx.eval();
    }
    // every byte of the header up to the end of the hash type
    for i in 0..17 + h.name().len() {
        let mut t = text.clone();
        t[i] = match rng.below(3) { 0 => t[i] ^ (1 << rng.below(8)), 1 => rng.next() as u8, _ => *rng.pick(&[b' ', b'0', b'2', b'x', b'\n', b'/', b'.', 0, 0xff, b'\t']) };
        if t[i] == text[i] { continue; }
        bad(&t, format!("byte {} of the header is {:#x}", i, t[i]), &mut rng)?;
        cx.count("damaged", 1);
        cx.eval();
    }
    // read errors are errors
    for at in [0usize, 10, 31, n - 66, n - 30, n - 1] {
        if at >= n || (at > 32 && at < n - 66) { continue; }
        let mut s = Src::new(&text, chunks(&mut rng));
        s.fail_at = Some((at, ErrorKind::Other));
        match get_hash(&mut s) {
            Ok(_) if s.faults == 0 => {}
            Ok(v) => fail!("a read error at byte {} of {} is ignored, the hash is {}", at, n, hex(&v)),
            Err(e) => ensure!(s.faults == 0 || e.to_string().contains(MARK), "a read error at byte {} is reported as {}", at, e),
        }
        cx.count("read errors", s.faults);
    }
    cx.sample(|| show_text(&text));
    Ok(())
}

// ---------------------------------------------------------------- C23

pub static C23: Prop = Prop {
    id: "C23", level: "fault_enumeration",
    rule: "canonical, damaged and hostile texts read through readers that give the bytes in scripted pieces with interruptions, by next(), seeking and merging, and compared with reading from one buffer; plus a read error at every byte position (texts up to 1200 bytes) or at 200 positions; non-trivial with at least two lines, distinct by text and chunking",
    quick: 35000, thorough: 1050000, quick_s: 45, thorough_s: 600, run: c23,
    assumptions: &[],
    need: &["comparisons", "interrupted reads", "read errors", "read errors when seeking", "read errors in a merge"],
};

fn trace<B: BufRead>(p: &mut Parser<B>, os: &[Op], limit: usize) -> Vec<String> {
    let mut v = Vec::new();
    let mut it = p.iter();
    for o in os {
        let r = match o { Op::Next => it.next(), Op::To(k) => it.advance(k) };
        v.push(match r { None => "none".into(), Some(Ok(e)) => format!("{:?}", e), Some(Err(e)) => format!("error {}", e) });
    }
    let mut n = 0;
    while let Some(r) = it.next() {
        v.push(match r { Ok(e) => format!("{:?}", e), Err(e) => format!("error {}", e) });
        n += 1;
        if n > limit { v.push("no end".into()); break; }
    }
    v
}

fn c23(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let h = *rng.pick(&ALL_H);
    let hostile_text = cx.idx >= 2 * GIANTS && rng.chance(1, 3);
    let (text, bs, lines) = if hostile_text { (hostile(&mut rng), 0, vec![]) } else { document(cx, &mut rng, h, 0) };
    let limit = rows(&text) + 3;
    let os = if rng.chance(1, 2) { vec![] } else { let n = rng.us(20); ops(&mut rng, &lines, n) };
    let base = match Parser::new(Cursor::new(&text)) {
        Ok(mut p) => Ok(trace(&mut p, &os, limit)),
        Err(e) => Err(e.to_string()),
    };
    for _ in 0..5 {
        let ch = chunks(&mut rng);
        let mut s = Src::new(&text, ch);
        if rng.chance(1, 2) { s.intr = rng.range(2, 6); }
        let intr = s.intr;
        let got = match Parser::new(s) {
            Ok(mut p) => { let t = trace(&mut p, &os, limit); cx.count("interrupted reads", p.into_reader().interrupts); Ok(t) }
            Err(e) => Err(e.to_string()),
        };
        cx.eval();
        cx.count("comparisons", 1);
        if got != base {
            let d = match (&got, &base) {
                (Ok(a), Ok(b)) => { let i = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)).unwrap_or(0); format!("item {}: {:?} instead of {:?}", i, a.get(i), b.get(i)) }
                (a, b) => format!("{:?} instead of {:?}", a, b),
            };
            fail!("reading in pieces ({:?}, interrupted every {} calls) differs: {}", ch, intr, d.chars().take(900).collect::<String>());
        }
        if text.len() > 60 { cx.nontrivial(hash_bytes(&text) ^ hash_bytes(format!("{:?}", ch).as_bytes())); }
    }
    if hostile_text { return Ok(()); }
    // read errors
    let offs: Vec<usize> = std::iter::once(0).chain(text.iter().enumerate().filter(|(_, c)| **c == b'\n').map(|(i, _)| i + 1)).collect();
    let hl = offs[1];
    let every = text.len() <= 1200 && cx.idx % 4 == 0;
    for i in 0..if every { text.len() + 1 } else if text.len() > 100_000 { 4 } else { 40 } {
        let at = if every { i } else if i < 2 { text.len() - i } else { rng.us(text.len() + 1) };
        let kind = *rng.pick(&[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset, ErrorKind::InvalidData]);
        let mut s = Src::new(&text, chunks(&mut rng));
        s.fail_at = Some((at, kind));
        let what = format!("read error {:?} at byte {} of {}", kind, at, text.len());
        cx.eval();
        let mut p = match Parser::new(s) {
            Ok(p) => { ensure!(at >= hl, "{}: the header is read", what); p }
            Err(e) => {
                ensure!(at < hl, "{}: the header (of {} bytes) can't be read", what, hl);
                ensure!(e.to_string().contains(MARK), "{}: the error is {}", what, e);
                cx.count("read errors", 1);
                continue;
            }
        };
        let full = text[..at].iter().filter(|&&c| c == b'\n').count();
        let good = (full - 1).min(lines.len());
        let seek = i % 3 == 1;
        let mut it = p.iter();
        if seek {
            // beyond everything
            match it.advance(&EntryKind::Dir(path(&[b'/'].iter().cloned().chain(std::iter::repeat(0xff).take(300)).collect::<Vec<u8>>()))) {
                Some(Err(e)) => ensure!(e.to_string().contains(MARK), "{}: seeking reports {}", what, e),
                _ => fail!("{}: seeking to the end reports no error", what),
            }
            cx.count("read errors when seeking", 1);
        } else {
            for j in 0..good {
                match it.next() {
                    Some(Ok(e)) => if let Some(d) = entry_diff(&e, &lines[j], h, bs) { fail!("{}: {}", what, d); },
                    Some(Err(e)) => fail!("{}: entry {} of {} before it is not returned: {}", what, j, good, e),
                    None => fail!("{}: the end before it, at entry {} of {}", what, j, good),
                }
            }
            match it.next() {
                Some(Err(e)) => ensure!(e.to_string().contains(MARK), "{}: reported as {}", what, e),
                Some(Ok(e)) => fail!("{}: an entry made of it: {:?}", what, e.path()),
                None => fail!("{}: taken for the end of the index", what),
            }
            cx.count("read errors", 1);
        }
        let mut n = 0;
        while let Some(x) = it.next() {
            ensure!(x.is_err(), "{}: an entry after the error", what);
            n += 1;
            ensure!(n < limit, "{}: no end", what);
        }
    }
    // in a merge
    for _ in 0..3 {
        let at = hl + rng.us(text.len() - hl + 1);
        let mut s = Src::new(&text, chunks(&mut rng));
        s.fail_at = Some((at, ErrorKind::Other));
        let a = Parser::new(s); let b = Parser::new(Src::new(&text, chunks(&mut rng)));
        let (a, b) = match (a, b) { (Ok(a), Ok(b)) => (a, b), _ => fail!("the header can't be read") };
        let mut m = match MergedSignatures::new(vec![(0, a), (1, b)]) { Ok(m) => m, Err(e) => fail!("{}", e) };
        let mut seen = 0;
        let mut good = 0;
        for g in m.iter() {
            for (k, e) in g {
                match e {
                    Err(e) => { ensure!(*k == 0 && e.to_string().contains(MARK), "merge: index {} reports {}", k, e); seen += 1; }
                    Ok(_) if *k == 1 => good += 1,
                    Ok(_) => {}
                }
            }
        }
        ensure!(seen == 1 && good == lines.len(), "merge with a read error at byte {}: {} errors, {} of {} entries of the other index", at, seen, good, lines.len());
        cx.count("read errors in a merge", 1);
    }
    cx.sample(|| show_text(&text));
    Ok(())
}
