//! The reference model: trees as values, the index text they must give, and
//! an independent reader of index text. Nothing here uses the crate under
//! test, except HashType as an argument type.
use std::collections::BTreeMap;
use std::rc::Rc;

use digest::{Digest, Update, VariableOutput};

pub const BS: u64 = 32768;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum H { Sha, B2, B3 }
pub const ALL_H: [H; 3] = [H::Sha, H::B2, H::B3];

impl H {
    pub fn name(self) -> &'static str {
        match self { H::Sha => "sha512/256", H::B2 => "blake2b/256", H::B3 => "blake3/256" }
    }
    pub fn from_name(n: &str) -> Option<H> {
        ALL_H.iter().cloned().find(|h| h.name() == n)
    }
    pub fn ht(self) -> dir_signature::HashType {
        match self {
            H::Sha => dir_signature::HashType::sha512_256(),
            H::B2 => dir_signature::HashType::blake2b_256(),
            H::B3 => dir_signature::HashType::blake3_256(),
        }
    }
    pub fn digest(self, data: &[u8]) -> [u8; 32] {
        let mut r = [0u8; 32];
        match self {
            H::Sha => r.copy_from_slice(&sha2::Sha512Trunc256::digest(data)),
            H::B2 => {
                let mut h = blake2::VarBlake2b::new(32).unwrap();
                h.update(data);
                h.finalize_variable(|d| r.copy_from_slice(d));
            }
            H::B3 => r.copy_from_slice(blake3::hash(data).as_bytes()),
        }
        r
    }
}

pub fn hex(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() * 2);
    for b in d {
        s.push(b"0123456789abcdef"[(b >> 4) as usize] as char);
        s.push(b"0123456789abcdef"[(b & 15) as usize] as char);
    }
    s
}

#[derive(Clone, Debug)]
pub enum Node {
    Dir(BTreeMap<Vec<u8>, Node>, u32),
    File { data: Rc<Vec<u8>>, mode: u32, hard: u32 },
    Link(Vec<u8>),
    Fifo,
    Socket,
}

pub type Dir = BTreeMap<Vec<u8>, Node>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum What {
    File { exe: bool, data: Rc<Vec<u8>> },
    Link(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct MEntry { pub name: Vec<u8>, pub what: What, pub root: usize }

/// The merged tree, as the scan must see it
#[derive(Clone, Debug, Default)]
pub struct Merged {
    pub entries: Vec<MEntry>,
    pub dirs: BTreeMap<Vec<u8>, Merged>,
}

impl Merged {
    pub fn add(&mut self, dir: &Dir, root: usize) {
        for (name, node) in dir {
            match node {
                Node::Dir(d, _) => self.dirs.entry(name.clone()).or_default().add(d, root),
                Node::File { data, mode, .. } => self.entries.push(MEntry {
                    name: name.clone(), root,
                    what: What::File { exe: mode & 0o100 != 0, data: data.clone() },
                }),
                Node::Link(t) => self.entries.push(MEntry {
                    name: name.clone(), root, what: What::Link(t.clone()),
                }),
                Node::Fifo | Node::Socket => {}
            }
        }
        // stable: sources keep their order
        self.entries.sort_by(|a, b| a.name.cmp(&b.name));
    }
    pub fn at(&mut self, prefix: &[&[u8]]) -> &mut Merged {
        let mut m = self;
        for p in prefix { m = m.dirs.entry(p.to_vec()).or_default(); }
        m
    }
    /// (number of directories, number of entries)
    pub fn size(&self) -> (usize, usize) {
        let mut d = 1;
        let mut e = self.entries.len();
        for x in self.dirs.values() { let (a, b) = x.size(); d += a; e += b; }
        (d, e)
    }
    pub fn max_listing(&self) -> usize {
        let own = self.entries.len() + self.dirs.len();
        self.dirs.values().map(|d| d.max_listing()).max().unwrap_or(0).max(own)
    }
    pub fn depth(&self) -> usize {
        1 + self.dirs.values().map(|d| d.depth()).max().unwrap_or(0)
    }
    pub fn walk<F: FnMut(&[u8], &Merged)>(&self, path: &mut Vec<u8>, f: &mut F) {
        if path.is_empty() { f(b"/", self); } else { f(path, self); }
        for (n, d) in &self.dirs {
            let l = path.len();
            path.push(b'/');
            path.extend_from_slice(n);
            d.walk(path, f);
            path.truncate(l);
        }
    }
}

pub fn escape(name: &[u8], out: &mut Vec<u8>) {
    for &b in name {
        if b <= 0x20 || b >= 0x7f || b == b'\\' {
            out.extend_from_slice(b"\\x");
            out.extend_from_slice(hex(&[b]).as_bytes());
        } else { out.push(b); }
    }
}

/// How block digests are made. `Spec` is what the format says, the others
/// predict the known finding K1 (the blake3 hasher is never reset).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy { Spec, CumAll, CumFile }

pub struct Digests { pub h: H, pub pol: Policy, all: Option<blake3::Hasher> }

impl Digests {
    pub fn new(h: H, pol: Policy) -> Digests {
        Digests { h, pol, all: None }
    }
    pub fn file(&mut self, data: &[u8], bs: u64) -> Vec<[u8; 32]> {
        let bs = bs.min(usize::MAX as u64 / 2) as usize;
        let mut res = Vec::new();
        if self.h != H::B3 || self.pol == Policy::Spec {
            for c in data.chunks(bs) { res.push(self.h.digest(c)); }
            return res;
        }
        let mut st = match self.pol {
            Policy::CumAll => self.all.take().unwrap_or_else(blake3::Hasher::new),
            _ => blake3::Hasher::new(),
        };
        for c in data.chunks(bs) {
            st.update(c);
            let mut r = [0u8; 32];
            r.copy_from_slice(st.finalize().as_bytes());
            res.push(r);
        }
        if self.pol == Policy::CumAll { self.all = Some(st); }
        res
    }
}

pub fn header(h: H, bs: u64) -> Vec<u8> {
    format!("DIRSIGNATURE.v1 {} block_size={}\n", h.name(), bs).into_bytes()
}

/// The index text of a merged tree
pub fn render(tree: &Merged, h: H, pol: Policy) -> Vec<u8> {
    let mut dg = Digests::new(h, pol);
    let mut out = header(h, BS);
    let hl = out.len();
    let mut path = Vec::new();
    tree.walk(&mut path, &mut |p, m| {
        escape(p, &mut out);
        out.push(b'\n');
        for e in &m.entries {
            out.extend_from_slice(b"  ");
            escape(&e.name, &mut out);
            match &e.what {
                What::File { exe, data } => {
                    out.extend_from_slice(format!(" {} {}", if *exe { "x" } else { "f" }, data.len()).as_bytes());
                    for d in dg.file(data, BS) {
                        out.push(b' ');
                        out.extend_from_slice(hex(&d).as_bytes());
                    }
                }
                What::Link(t) => {
                    out.extend_from_slice(b" s ");
                    escape(t, &mut out);
                }
            }
            out.push(b'\n');
        }
    });
    let f = h.digest(&out[hl..]);
    out.extend_from_slice(hex(&f).as_bytes());
    out.push(b'\n');
    out
}

// ---- reading index text ------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum LKind {
    Dir,
    File { exe: bool, size: u64, digests: Vec<[u8; 32]> },
    Link(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Line {
    /// directory path (unescaped)
    pub dir: Vec<u8>,
    pub name: Vec<u8>,
    pub kind: LKind,
    pub row: usize,
}

#[derive(Clone, Debug)]
pub struct Index {
    pub h: H,
    pub bs: u64,
    pub lines: Vec<Line>,
    /// byte offset of the first line after the header and of the footer
    pub body: (usize, usize),
    pub footer: [u8; 32],
}

#[derive(Clone, Debug)]
pub struct Bad { pub row: usize, pub msg: String }

fn unhex(b: &[u8], upper: bool) -> Option<Vec<u8>> {
    if b.len() % 2 != 0 { return None; }
    let d = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' if upper => Some(c - b'A' + 10),
        _ => None,
    };
    b.chunks(2).map(|c| Some(d(c[0])? << 4 | d(c[1])?)).collect()
}

/// Undo the escaping; strict refuses anything the writer may not produce
pub fn unescape(b: &[u8], strict: bool) -> Option<Vec<u8>> {
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'\\' {
            let x = b.get(i + 1) == Some(&b'x') && i + 4 <= b.len();
            let h = if x { unhex(&b[i + 2..i + 4], !strict) } else { None };
            match h {
                Some(h) => {
                    let r = h[0];
                    if strict && !(r <= 0x20 || r >= 0x7f || r == b'\\') { return None; }
                    v.push(r);
                    i += 4;
                    continue;
                }
                None => if strict { return None; },
            }
        } else if strict && (c <= 0x20 || c >= 0x7f) { return None; }
        v.push(c);
        i += 1;
    }
    Some(v)
}

pub fn comps(p: &[u8]) -> Vec<&[u8]> {
    p.split(|&c| c == b'/').filter(|c| !c.is_empty()).collect()
}

fn dec(b: &[u8]) -> Option<u64> {
    if b.is_empty() || !b.iter().all(|c| c.is_ascii_digit()) { return None; }
    if b.len() > 1 && b[0] == b'0' { return None; }
    std::str::from_utf8(b).ok()?.parse().ok()
}

/// Read index text by the documented grammar. `order` also checks the order
/// of directories and entries; `counts` that every file has its digests.
pub fn read_index(text: &[u8], strict: bool) -> Result<Index, Bad> {
    let bad = |row: usize, msg: String| Err(Bad { row, msg });
    let short = |l: &[u8]| { let s = String::from_utf8_lossy(&l[..l.len().min(120)]).into_owned(); s };
    if text.last() != Some(&b'\n') {
        return bad(text.iter().filter(|&&c| c == b'\n').count() + 1, "no newline at the end".into());
    }
    let mut rows: Vec<&[u8]> = text[..text.len() - 1].split(|&c| c == b'\n').collect();
    if rows.len() < 2 { return bad(rows.len(), "less than two lines".into()); }
    let n = rows.len();
    let footer_row = rows.pop().unwrap();
    let head = rows[0];
    let s = match std::str::from_utf8(head) { Ok(s) => s, _ => return bad(1, "header".into()) };
    let parts: Vec<&str> = s.split(' ').collect();
    if parts.len() != 3 || parts[0] != "DIRSIGNATURE.v1" { return bad(1, format!("header {:?}", s)); }
    let h = match H::from_name(parts[1]) { Some(h) => h, None => return bad(1, format!("hash {:?}", s)) };
    let bs = match parts[2].strip_prefix("block_size=").and_then(|b| dec(b.as_bytes())) {
        Some(b) if b > 0 => b,
        _ => return bad(1, format!("block size {:?}", s)),
    };
    let mut lines = Vec::new();
    let mut cur: Option<Vec<u8>> = None;
    for (i, l) in rows.iter().enumerate().skip(1) {
        let row = i + 1;
        if l.first() == Some(&b'/') {
            let p = match unescape(l, strict) { Some(p) => p, None => return bad(row, format!("escape: {}", short(l))) };
            if strict && (p.len() > 1 && (p.ends_with(b"/") || p.windows(2).any(|w| w == b"//"))) {
                return bad(row, format!("directory path: {}", short(l)));
            }
            lines.push(Line { dir: p.clone(), name: Vec::new(), kind: LKind::Dir, row });
            cur = Some(p);
        } else if l.starts_with(b"  ") {
            let dir = match cur { Some(ref d) => d.clone(), None => return bad(row, "entry before any directory".into()) };
            let f: Vec<&[u8]> = l[2..].split(|&c| c == b' ').collect();
            if f.len() < 3 { return bad(row, format!("fields: {}", short(l))); }
            let name = match unescape(f[0], strict) { Some(p) => p, None => return bad(row, format!("escape: {}", short(l))) };
            if name.is_empty() || name == b"." || name == b".." || name.contains(&b'/') {
                return bad(row, format!("name: {}", short(l)));
            }
            let kind = match f[1] {
                b"f" | b"x" => {
                    let size = match dec(f[2]) { Some(n) => n, None => return bad(row, format!("size: {}", short(l))) };
                    let mut digests = Vec::new();
                    for d in &f[3..] {
                        match unhex(d, !strict) {
                            Some(v) if v.len() == 32 => {
                                let mut a = [0u8; 32];
                                a.copy_from_slice(&v);
                                digests.push(a);
                            }
                            _ => return bad(row, format!("digest: {}", short(l))),
                        }
                    }
                    let want = size / bs + (size % bs != 0) as u64;
                    if digests.len() as u64 != want {
                        return bad(row, format!("{} digests for size {}: {}", digests.len(), size, short(l)));
                    }
                    LKind::File { exe: f[1] == b"x", size, digests }
                }
                b"s" => {
                    if f.len() != 3 || f[2].is_empty() { return bad(row, format!("link: {}", short(l))); }
                    match unescape(f[2], strict) { Some(t) => LKind::Link(t), None => return bad(row, format!("escape: {}", short(l))) }
                }
                _ => return bad(row, format!("type: {}", short(l))),
            };
            lines.push(Line { dir, name, kind, row });
        } else {
            return bad(row, format!("line: {}", short(l)));
        }
    }
    let f = match unhex(footer_row, !strict) {
        Some(v) if v.len() == 32 => v,
        _ => return bad(n, format!("footer: {}", short(footer_row))),
    };
    let mut footer = [0u8; 32];
    footer.copy_from_slice(&f);
    let body = (head.len() + 1, text.len() - footer_row.len() - 1);
    Ok(Index { h, bs, lines, body, footer })
}

/// Order of the lines (names may repeat if `dups`, for overlapping sources)
pub fn check_order(ix: &Index, dups: bool) -> Result<(), Bad> {
    let mut prev: Option<&Line> = None;
    for l in &ix.lines {
        if let Some(p) = prev {
            let e = |m: String| Err(Bad { row: l.row, msg: m });
            match (&p.kind, &l.kind) {
                (_, LKind::Dir) => {
                    if comps(&p.dir) >= comps(&l.dir) {
                        return e(format!("directory {:?} after {:?}", show(&l.dir), show(&p.dir)));
                    }
                }
                (LKind::Dir, _) => {}
                _ => {
                    if p.name > l.name || (p.name == l.name && !dups) {
                        return e(format!("entry {:?} after {:?}", show(&l.name), show(&p.name)));
                    }
                }
            }
        } else if l.kind != LKind::Dir || l.dir != b"/" {
            return Err(Bad { row: l.row, msg: "the first line is not the root".into() });
        }
        prev = Some(l);
    }
    // every directory but the root must have its parent listed
    let all: std::collections::HashSet<&[u8]> = ix.lines.iter()
        .filter(|l| l.kind == LKind::Dir).map(|l| &l.dir[..]).collect();
    for l in &ix.lines {
        if l.kind == LKind::Dir && l.dir.len() > 1 {
            let cut = l.dir.iter().rposition(|&c| c == b'/').unwrap();
            let parent: &[u8] = if cut == 0 { b"/" } else { &l.dir[..cut] };
            if !all.contains(parent) {
                return Err(Bad { row: l.row, msg: format!("parent of {:?} is missing", show(&l.dir)) });
            }
        }
    }
    Ok(())
}

pub fn show(b: &[u8]) -> String {
    let mut v = Vec::new();
    escape(&b[..b.len().min(200)], &mut v);
    String::from_utf8(v).unwrap()
}

/// First difference of two texts, for messages
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let g: Vec<&[u8]> = got.split(|&c| c == b'\n').collect();
    let w: Vec<&[u8]> = want.split(|&c| c == b'\n').collect();
    for i in 0..g.len().max(w.len()) {
        let a = g.get(i); let b = w.get(i);
        if a != b {
            let f = |x: Option<&&[u8]>| x.map(|x| {
                let s = String::from_utf8_lossy(&x[..x.len().min(300)]).into_owned();
                s
            }).unwrap_or_else(|| "<end>".into());
            return format!("line {}: got {:?}, want {:?} (lengths {} and {})", i + 1, f(a), f(b), got.len(), want.len());
        }
    }
    "equal".into()
}
