//! Tree generator and its realisation on disk.
use std::collections::HashMap;
use std::ffi::CString;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::rc::Rc;

use crate::model::{Dir, Merged, Node};
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Knobs {
    /// rough number of nodes
    pub nodes: usize,
    pub max_depth: usize,
    /// 0..=100 chance of odd names
    pub odd: u64,
    pub max_file: usize,
    pub files_pct: u64,
    pub dirs_pct: u64,
    pub links_pct: u64,
    pub other_pct: u64,
    pub hard: bool,
    pub modes: bool,
}

impl Default for Knobs {
    fn default() -> Knobs {
        Knobs { nodes: 30, max_depth: 6, odd: 50, max_file: 100_000,
                files_pct: 50, dirs_pct: 25, links_pct: 15, other_pct: 10,
                hard: true, modes: true }
    }
}

const ODD: &[&[u8]] = &[
    b" ", b"  ", b"a b", b" a", b"a ", b"\n", b"a\nb", b"\t", b"\r", b"\x01", b"\x1f", b"\x7f", b"\x80", b"\xff",
    b"\xff\xfe", b"\\", b"\\\\", b"\\x20", b"\\x5c", b"a\\x5cb", b"\\x", b"\\xg0", b"\\x2", b"a\\", b"\\x2f",
    b"\xc3\xa9", b"e\xcc\x81", b"\xe6\x97\xa5\xe6\x9c\xac", b"\xf0\x9f\x98\x80", b"\xc2\xa0", b"\xe2\x80\xae",
    b"'", b"\"", b"`", b"$HOME", b"%s%n", b"*", b"?", b"[a]", b"|", b"&", b";", b"<", b">", b"!", b"#", b"~", b"-", b"--",
    b"-rf", b"...", b"..a", b".a", b".hidden", b".git", b".gitignore", b"lost+found", b"core", b"CVS", b"a~", b"#a#",
    b"Thumbs.db", b".DS_Store", b"target", b"node_modules", b"tmp", b"proc", b"dev", b"index", b"f", b"x", b"s", b"d",
    b"f 0", b"x 0", b"DIRSIGNATURE.v1", b"0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef",
    b"A", b"B", b"a", b"b", b"Aa", b"aA", b"0", b"00", b"1", b"10", b"2", b"a0", b"a-", b"a.", b"a!", b"a\x01", b"a\xff",
    b"a+b", b"a,b", b"a=b", b"a@b", b"a:b", b"/"  /* replaced */, b"a^", b"a_b", b"a{b}", b"a|b", b"(a)",
];
const PLAIN: &[&[u8]] = &[
    b"a", b"b", b"c", b"ab", b"a.txt", b"README.md", b"lib.rs", b"src", b"bin", b"data", b"image.png", b"x1", b"x2",
    b"hello", b"world", b"dir1", b"dir2", b"file", b"etc", b"usr", b"var", b"log", b"main.c", b"Makefile",
];

pub fn name(rng: &mut Rng, odd: u64, dir: &Dir) -> Vec<u8> {
    for _ in 0..20 {
        let n: Vec<u8> = if rng.chance(odd, 100) {
            match rng.below(10) {
                0..=3 => rng.pick(ODD).to_vec(),
                4 => {
                    let l = rng.range(1, 24) as usize;
                    rng.bytes(l)
                }
                5 => {
                    let l = *rng.pick(&[253usize, 254, 255, 255]);
                    match rng.below(3) {
                        0 => vec![b'n'; l],
                        1 => vec![0xff; l],
                        _ => rng.bytes(l),
                    }
                }
                6 | 7 if !dir.is_empty() => {
                    // a sibling that shares a prefix with an existing name
                    let k = rng.us(dir.len());
                    let mut v = dir.keys().nth(k).unwrap().clone();
                    let c = *rng.pick(&[b'-', b'.', b'!', b' ', b'0', 1, 0xff, b'a', b'~', b'+', b',']);
                    v.push(c);
                    v
                }
                8 if !dir.is_empty() => {
                    let k = rng.us(dir.len());
                    let mut v = dir.keys().nth(k).unwrap().clone();
                    if v.len() > 1 { v.pop(); }
                    if rng.chance(1, 2) { v = v.to_ascii_uppercase(); }
                    v
                }
                _ => {
                    let mut v = rng.pick(ODD).to_vec();
                    v.extend_from_slice(*rng.pick(ODD));
                    v
                }
            }
        } else {
            let mut v = rng.pick(PLAIN).to_vec();
            if rng.chance(1, 3) { v.extend_from_slice(rng.below(100).to_string().as_bytes()); }
            v
        };
        let mut n: Vec<u8> = n.into_iter().map(|c| match c { 0 => b'z', b'/' => b'_', c => c }).collect();
        n.truncate(255);
        if n.is_empty() || n == b"." || n == b".." || dir.contains_key(&n) { continue; }
        return n;
    }
    let mut i = dir.len();
    loop {
        let n = format!("n{}", i).into_bytes();
        if !dir.contains_key(&n) { return n; }
        i += 1;
    }
}

pub fn size(rng: &mut Rng, max: usize) -> usize {
    let b = 32768usize;
    let s = match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => *rng.pick(&[2usize, 63, 64, 65, 127, 128, 129, 1023, 1024, 1025]),
        3 => *rng.pick(&[4095usize, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385]),
        4 => *rng.pick(&[b - 1, b, b + 1]),
        5 => *rng.pick(&[2 * b - 1, 2 * b, 2 * b + 1, 3 * b, 4 * b - 1, 4 * b, 4 * b + 1]),
        6 => rng.us(5 * b),
        7 => rng.us(40 * b),
        8 => b * rng.us(30),
        _ => rng.us(2000),
    };
    if s > max { if max == 0 { 0 } else { s % (max + 1) } } else { s }
}

pub fn content(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(8) {
        0 => vec![0; n],
        1 => vec![b'\n'; n],
        2 => {
            // equal blocks
            let blk = rng.bytes(32768.min(n.max(1)));
            blk.iter().cloned().cycle().take(n).collect()
        }
        3 => {
            // a zero block in the middle
            let mut v = rng.bytes(n);
            if n > 3 * 32768 { for x in &mut v[32768..65536] { *x = 0; } }
            v
        }
        4 => {
            // zero tail
            let mut v = rng.bytes(n);
            let h = n / 2;
            for x in &mut v[h..] { *x = 0; }
            v
        }
        _ => rng.bytes(n),
    }
}

const FILE_MODES: &[u32] = &[
    0o644, 0o644, 0o755, 0o755, 0o700, 0o600, 0o100, 0o010, 0o001, 0o011, 0o111, 0o000, 0o400, 0o444, 0o500, 0o544,
    0o666, 0o677, 0o777, 0o4755, 0o4655, 0o2755, 0o1644, 0o7777, 0o7677, 0o655, 0o654, 0o645, 0o755, 0o200, 0o300,
];

pub fn file(rng: &mut Rng, k: &Knobs) -> Node {
    let n = size(rng, k.max_file);
    let data = Rc::new(content(rng, n));
    let mode = if k.modes { *rng.pick(FILE_MODES) } else { *rng.pick(&[0o644, 0o755]) };
    Node::File { data, mode, hard: 0 }
}

pub fn target(rng: &mut Rng, dir: &Dir) -> Vec<u8> {
    let v: Vec<u8> = match rng.below(12) {
        0 => b".".to_vec(),
        1 => rng.pick(&[&b".."[..], b"./x", b"x/", b"x//y", b"x/./y", b"a/../b", b"//x", b"x/.", b"./", b"..//"]).to_vec(),
        2 => b"/".to_vec(),
        3 => b"../../../../../../..".to_vec(),
        4 => b"/etc/passwd".to_vec(),
        5 => b"does/not/exist".to_vec(),
        6 => {
            let l = *rng.pick(&[100usize, 255, 256, 1000, 4000, 4094, 4095]);
            let mut v = Vec::new();
            while v.len() < l { v.extend_from_slice(&rng.bytes(100)); v.push(b'/'); }
            v.truncate(l);
            v
        }
        7 => { let l = rng.range(1, 30) as usize; rng.bytes(l) }
        8 => rng.pick(ODD).to_vec(),
        9 => {
            let mut v = rng.pick(ODD).to_vec();
            v.push(b'/');
            v.extend_from_slice(*rng.pick(ODD));
            v
        }
        _ if !dir.is_empty() => { let i = rng.us(dir.len()); dir.keys().nth(i).unwrap().clone() }
        _ => b"self".to_vec(),
    };
    let v: Vec<u8> = v.into_iter().map(|c| if c == 0 { b'0' } else { c }).collect();
    if v.is_empty() { b"t".to_vec() } else { v }
}

/// Names that some comparison or normalisation might confuse
pub fn family(rng: &mut Rng, d: &Dir) -> Vec<Vec<u8>> {
    let base: Vec<u8> = match rng.below(4) {
        0 => vec![],
        1 => rng.pick(PLAIN).to_vec(),
        2 => vec![b'p'; rng.range(1, 240) as usize],
        _ => rng.pick(ODD).to_vec(),
    };
    let tail: Vec<u8> = if rng.chance(1, 3) { rng.pick(PLAIN).to_vec() } else { vec![] };
    let mid: Vec<Vec<u8>> = match rng.below(9) {
        // equal when read as lossy UTF-8
        0 | 1 => (0..rng.range(2, 30)).map(|_| vec![rng.range(0x80, 0xff) as u8]).collect(),
        2 => (0..rng.range(2, 8)).map(|_| { let n = rng.range(1, 4) as usize; rng.bytes(n).iter().map(|b| b | 0x80).collect() }).collect(),
        // case
        3 => [&b"name"[..], b"Name", b"NAME", b"nAME", b"na_me", b"NA_ME"].iter().map(|x| x.to_vec()).collect(),
        // composed and decomposed, and characters that are not seen
        4 => ["\u{e9}", "e\u{301}", "e", "\u{e9}\u{301}", "e\u{200b}", "e\u{feff}", "\u{ff45}", "\u{e8}"].iter().map(|x| x.as_bytes().to_vec()).collect(),
        // numbers
        5 => ["1", "01", "001", "2", "10", "9", "09", "1.0", "1e0", "-1", "+1", " 1"].iter().map(|x| x.as_bytes().to_vec()).collect(),
        // around the ends
        6 => [&b""[..], b" ", b".", b"..", b"-", b"\x01", b"\xff", b"\\", b"~", b"  "].iter().map(|x| x.to_vec()).collect(),
        // what one name is once escaped, and once more
        7 => [&b"\\"[..], b"\\x5c", b"\\x5cx5c", b"\\x20", b" ", b"\\x5cx20", b"\\x5Cx20", b"\xff", b"\\xff", b"\\xFF"].iter().map(|x| x.to_vec()).collect(),
        // bytes of both ends of the signed range
        _ => [0x01u8, 0x1f, 0x20, 0x2e, 0x30, 0x5c, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff].iter().map(|x| vec![*x]).collect(),
    };
    let mut out: Vec<Vec<u8>> = Vec::new();
    for m in mid {
        let mut n = base.clone();
        n.extend_from_slice(&m);
        n.extend_from_slice(&tail);
        let mut n: Vec<u8> = n.into_iter().map(|c| match c { 0 => b'z', b'/' => b'_', c => c }).collect();
        n.truncate(255);
        if n.is_empty() || n == b"." || n == b".." || d.contains_key(&n) || out.contains(&n) { continue; }
        out.push(n);
    }
    out
}

fn fill(rng: &mut Rng, k: &Knobs, left: &mut usize, depth: usize, hard: &mut Vec<Node>) -> Dir {
    let mut d = Dir::new();
    let max = match rng.below(6) { 0 => 1, 1 => 2, 2 => 40, _ => 8 };
    let n = rng.range(if depth == 0 { 1 } else { 0 }, max) as usize;
    for _ in 0..n {
        if *left == 0 { break; }
        *left -= 1;
        let nm = name(rng, k.odd, &d);
        let total = k.files_pct + k.dirs_pct + k.links_pct + k.other_pct;
        let mut r = rng.below(total);
        let node = if r < k.files_pct {
            if k.hard && !hard.is_empty() && rng.chance(1, 10) {
                rng.pick(hard).clone()
            } else {
                let mut f = file(rng, k);
                if k.hard && rng.chance(1, 10) {
                    if let Node::File { hard: ref mut h, .. } = f { *h = hard.len() as u32 + 1; }
                    hard.push(f.clone());
                }
                f
            }
        } else if { r -= k.files_pct; r < k.dirs_pct } {
            if depth + 1 >= k.max_depth { Node::Dir(Dir::new(), 0o755) }
            else {
                let mode = if k.modes { *rng.pick(&[0o755u32, 0o755, 0o700, 0o555, 0o000, 0o1777, 0o2755]) } else { 0o755 };
                Node::Dir(fill(rng, k, left, depth + 1, hard), mode)
            }
        } else if { r -= k.dirs_pct; r < k.links_pct } {
            Node::Link(target(rng, &d))
        } else if rng.chance(1, 2) { Node::Fifo } else { Node::Socket };
        d.insert(nm, node);
    }
    if k.odd > 0 && *left > 0 && rng.chance(k.odd, 600) {
        let kind = rng.below(4);
        for nm in family(rng, &d) {
            *left = left.saturating_sub(1);
            let node = match if kind == 3 { rng.below(3) } else { kind } {
                0 => file(rng, &Knobs { max_file: k.max_file.min(40), ..k.clone() }),
                1 => {
                    let mut s = Dir::new();
                    if depth + 1 < k.max_depth && rng.chance(1, 2) { s.insert(b"in".to_vec(), file(rng, &Knobs { max_file: k.max_file.min(40), ..k.clone() })); }
                    Node::Dir(s, 0o755)
                }
                _ => Node::Link(target(rng, &d)),
            };
            d.insert(nm, node);
        }
    }
    d
}

pub fn tree(rng: &mut Rng, k: &Knobs) -> Dir {
    let mut left = k.nodes;
    let mut hard = Vec::new();
    let mut d = fill(rng, k, &mut left, 0, &mut hard);
    // spend what is left in the directories that exist
    while left > 0 {
        let extra = fill(rng, k, &mut left, 0, &mut hard);
        for (n, v) in extra { d.entry(n).or_insert(v); }
    }
    d
}

/// A second source that overlaps with the first one in names and directories
pub fn overlapping(rng: &mut Rng, a: &Dir, k: &Knobs) -> Dir {
    let mut d = tree(rng, &Knobs { nodes: k.nodes / 2, ..k.clone() });
    let keep = *rng.pick(&[1u64, 3, 8, 10]);
    fn mix(rng: &mut Rng, a: &Dir, d: &mut Dir, k: &Knobs, keep: u64) {
        for (n, v) in a {
            if !rng.chance(keep, 10) { continue; }
            match v {
                Node::Dir(sub, m) => {
                    let mut e = match d.remove(n) { Some(Node::Dir(x, _)) => x, _ => Dir::new() };
                    mix(rng, sub, &mut e, k, keep);
                    if rng.chance(1, 2) {
                        let nm = name(rng, k.odd, &e);
                        e.insert(nm, file(rng, k));
                    }
                    d.insert(n.clone(), Node::Dir(e, *m));
                }
                _ => {
                    let new = match rng.below(4) {
                        0 => Node::Link(target(rng, a)),
                        1 => Node::Dir(Dir::new(), 0o755),
                        _ => file(rng, k),
                    };
                    d.insert(n.clone(), new);
                }
            }
        }
    }
    mix(rng, a, &mut d, k, keep);
    // hard links do not span sources here
    fn unhard(d: &mut Dir) {
        for v in d.values_mut() {
            match v {
                Node::File { hard, .. } => *hard = 0,
                Node::Dir(x, _) => unhard(x),
                _ => {}
            }
        }
    }
    unhard(&mut d);
    d
}

pub fn merged(roots: &[Dir]) -> Merged {
    let mut m = Merged::default();
    for (i, r) in roots.iter().enumerate() { m.add(r, i); }
    m
}

// ---- on disk -----------------------------------------------------------

fn c(n: &[u8]) -> CString { CString::new(n).unwrap() }

fn check(r: i32, what: &str, n: &[u8]) {
    if r < 0 {
        panic!("harness: {} {:?}: {}", what, crate::model::show(n), std::io::Error::last_os_error());
    }
}

pub fn open_dir(p: &Path) -> OwnedFd {
    let cp = c(p.as_os_str().as_bytes());
    let fd = unsafe { libc::open(cp.as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC) };
    check(fd, "open", p.as_os_str().as_bytes());
    unsafe { OwnedFd::from_raw_fd(fd) }
}

pub fn write_file_at(dir: i32, n: &[u8], data: &[u8], mode: u32) {
    let cn = c(n);
    unsafe {
        let fd = libc::openat(dir, cn.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_EXCL | libc::O_CLOEXEC, 0o600);
        check(fd, "create", n);
        let mut off = 0;
        while off < data.len() {
            let r = libc::write(fd, data[off..].as_ptr() as *const _, data.len() - off);
            if r <= 0 { check(-1, "write", n); }
            off += r as usize;
        }
        check(libc::fchmod(fd, mode), "fchmod", n);
        libc::close(fd);
    }
}

/// Create the tree in an existing empty directory, in shuffled order
pub fn materialise(root: &Path, d: &Dir, rng: &mut Rng) {
    let fd = open_dir(root);
    let mut hard = HashMap::new();
    put(fd.as_raw_fd(), d, rng, &mut hard, &mut HashMap::new());
}

fn put(dirfd: i32, d: &Dir, rng: &mut Rng, hard: &mut HashMap<u32, (OwnedFd, CString)>, links: &mut HashMap<Vec<u8>, (OwnedFd, CString)>) {
    let mut order: Vec<(&Vec<u8>, &Node)> = d.iter().collect();
    rng.shuffle(&mut order);
    for (n, node) in order {
        let cn = c(n);
        unsafe {
            match node {
                Node::Dir(sub, mode) => {
                    check(libc::mkdirat(dirfd, cn.as_ptr(), 0o755), "mkdir", n);
                    let fd = libc::openat(dirfd, cn.as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC);
                    check(fd, "opendir", n);
                    put(fd, sub, rng, hard, links);
                    if *mode != 0o755 { check(libc::fchmod(fd, *mode), "fchmod", n); }
                    libc::close(fd);
                }
                Node::File { data, mode, hard: h } => {
                    if *h != 0 {
                        if let Some((fd, old)) = hard.get(h) {
                            check(libc::linkat(fd.as_raw_fd(), old.as_ptr(), dirfd, cn.as_ptr(), 0), "link", n);
                            continue;
                        }
                    }
                    write_file_at(dirfd, n, data, *mode);
                    if *h != 0 {
                        let fd = libc::fcntl(dirfd, libc::F_DUPFD_CLOEXEC, 0);
                        check(fd, "dup", n);
                        hard.insert(*h, (OwnedFd::from_raw_fd(fd), cn.clone()));
                    }
                    if rng.chance(1, 4) {
                        let t = libc::timespec { tv_sec: rng.below(4_000_000_000) as i64, tv_nsec: rng.below(999_999_999) as i64 };
                        libc::utimensat(dirfd, cn.as_ptr(), [t, t].as_ptr(), libc::AT_SYMLINK_NOFOLLOW);
                    }
                }
                Node::Link(t) => {
                    let ct = c(t);
                    // sometimes another name of a link that is there
                    if let Some((fd, old)) = links.get(t) {
                        if rng.chance(1, 2) && libc::linkat(fd.as_raw_fd(), old.as_ptr(), dirfd, cn.as_ptr(), 0) == 0 { continue; }
                    } else if links.len() < 4 {
                        let fd = libc::fcntl(dirfd, libc::F_DUPFD_CLOEXEC, 0);
                        check(fd, "dup", n);
                        links.insert(t.clone(), (OwnedFd::from_raw_fd(fd), cn.clone()));
                    }
                    check(libc::symlinkat(ct.as_ptr(), dirfd, cn.as_ptr()), "symlink", t);
                }
                Node::Fifo => check(libc::mknodat(dirfd, cn.as_ptr(), libc::S_IFIFO | 0o644, 0), "mkfifo", n),
                Node::Socket => check(libc::mknodat(dirfd, cn.as_ptr(), libc::S_IFSOCK | 0o644, 0), "mksock", n),
            }
        }
    }
}

/// Change files of a tree in place: same size and times, other bytes or another
/// mode. Returns how many were changed.
pub fn rewrite(root: &Path, d: &mut Dir, rng: &mut Rng) -> u64 {
    let fd = open_dir(root);
    alter(fd.as_raw_fd(), d, rng)
}

fn alter(dirfd: i32, d: &mut Dir, rng: &mut Rng) -> u64 {
    let mut count = 0;
    for (n, node) in d.iter_mut() {
        let cn = c(n);
        unsafe {
            match node {
                Node::Dir(sub, _) => {
                    let fd = libc::openat(dirfd, cn.as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC);
                    check(fd, "opendir", n);
                    count += alter(fd, sub, rng);
                    libc::close(fd);
                }
                Node::File { data, mode, hard: 0 } if rng.chance(2, 3) => {
                    let fd = libc::openat(dirfd, cn.as_ptr(), libc::O_WRONLY | libc::O_CLOEXEC);
                    check(fd, "open", n);
                    let mut st: libc::stat = std::mem::zeroed();
                    check(libc::fstat(fd, &mut st), "fstat", n);
                    if !data.is_empty() && rng.chance(4, 5) {
                        let mut v = data.to_vec();
                        match rng.below(4) {
                            0 => { let i = rng.us(v.len()); v[i] ^= 1 << rng.below(8); }
                            1 => { let i = v.len() - 1; v[i] = v[i].wrapping_add(1); }
                            2 => v[0] ^= 0x80,
                            _ => v = rng.bytes(v.len()),
                        }
                        let mut off = 0;
                        while off < v.len() {
                            let r = libc::pwrite(fd, v[off..].as_ptr() as *const _, v.len() - off, off as i64);
                            if r <= 0 { check(-1, "write", n); }
                            off += r as usize;
                        }
                        *data = Rc::new(v);
                    } else {
                        *mode ^= *rng.pick(&[0o111, 0o100, 0o010, 0o001]);
                    }
                    check(libc::fchmod(fd, *mode), "fchmod", n);
                    let t = [libc::timespec { tv_sec: st.st_atime, tv_nsec: st.st_atime_nsec }, libc::timespec { tv_sec: st.st_mtime, tv_nsec: st.st_mtime_nsec }];
                    libc::futimens(fd, t.as_ptr());
                    libc::close(fd);
                    count += 1;
                }
                _ => {}
            }
        }
    }
    count
}

/// What is on disk (for before/after comparisons): one line per node
pub fn snapshot(root: &Path) -> Vec<String> {
    let mut out = Vec::new();
    let fd = open_dir(root);
    snap(fd.as_raw_fd(), &mut Vec::new(), &mut out);
    out.sort();
    out
}

pub fn list(fd: i32) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    unsafe {
        let f2 = libc::openat(fd, c".".as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC);
        check(f2, "open .", b".");
        let d = libc::fdopendir(f2);
        loop {
            let e = libc::readdir(d);
            if e.is_null() { break; }
            let n = std::ffi::CStr::from_ptr((*e).d_name.as_ptr()).to_bytes();
            if n != b"." && n != b".." { v.push(n.to_vec()); }
        }
        libc::closedir(d);
    }
    v.sort();
    v
}

fn snap(fd: i32, path: &mut Vec<u8>, out: &mut Vec<String>) {
    for n in list(fd) {
        let cn = c(&n);
        unsafe {
            let mut st: libc::stat = std::mem::zeroed();
            check(libc::fstatat(fd, cn.as_ptr(), &mut st, libc::AT_SYMLINK_NOFOLLOW), "stat", &n);
            let l = path.len();
            path.push(b'/');
            path.extend_from_slice(&n);
            let t = st.st_mode & libc::S_IFMT;
            let mut extra = String::new();
            if t == libc::S_IFREG {
                let f = libc::openat(fd, cn.as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC | libc::O_NOATIME);
                if f >= 0 {
                    let mut h = 0u64;
                    let mut buf = [0u8; 65536];
                    loop {
                        let r = libc::read(f, buf.as_mut_ptr() as *mut _, buf.len());
                        if r <= 0 { break; }
                        h = crate::rng::mix(h ^ crate::rng::hash_bytes(&buf[..r as usize]));
                    }
                    libc::close(f);
                    extra = format!("{:x}", h);
                }
            } else if t == libc::S_IFLNK {
                let mut buf = [0u8; 5000];
                let r = libc::readlinkat(fd, cn.as_ptr(), buf.as_mut_ptr() as *mut _, buf.len());
                if r > 0 { extra = crate::model::hex(&buf[..r as usize]); }
            }
            out.push(format!("{} {:o} {} {} {} {} {}.{} {}.{} {}", crate::model::hex(path), st.st_mode, st.st_size, st.st_nlink,
                st.st_uid, st.st_ino, st.st_mtime, st.st_mtime_nsec, st.st_ctime, st.st_ctime_nsec, extra));
            if t == libc::S_IFDIR {
                let f = libc::openat(fd, cn.as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC);
                check(f, "opendir", &n);
                snap(f, path, out);
                libc::close(f);
            }
            path.truncate(l);
        }
    }
}

/// Remove a directory tree of any depth (only used below the scratch folder)
pub fn remove_tree(p: &Path) {
    assert!(p.components().any(|c| c.as_os_str().as_bytes().starts_with(b"vh.")), "not scratch: {:?}", p);
    if !p.exists() { return; }
    {
        let fd = open_dir(p);
        wipe(fd.as_raw_fd());
    }
    let _ = std::fs::remove_dir(p);
}

fn wipe(fd: i32) {
    for n in list(fd) {
        let cn = c(&n);
        unsafe {
            if libc::unlinkat(fd, cn.as_ptr(), 0) == 0 { continue; }
            let f = libc::openat(fd, cn.as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_NOFOLLOW | libc::O_CLOEXEC);
            if f >= 0 {
                wipe(f);
                libc::close(f);
                libc::unlinkat(fd, cn.as_ptr(), libc::AT_REMOVEDIR);
            }
        }
    }
}

/// Short description of a tree for samples
pub fn describe(m: &Merged) -> String {
    let (d, e) = m.size();
    let mut s = format!("{} dirs, {} entries, depth {}:", d, e, m.depth());
    let mut n = 0;
    m.walk(&mut Vec::new(), &mut |p, m| {
        for e in &m.entries {
            n += 1;
            if n <= 4 {
                s.push_str(&format!(" [{} {}{}]", crate::model::show(p), crate::model::show(&e.name), match &e.what {
                    crate::model::What::File { exe, data } => format!(" {} {}", if *exe { "x" } else { "f" }, data.len()),
                    crate::model::What::Link(t) => format!(" -> {}", crate::model::show(&t[..t.len().min(30)])),
                }));
            }
        }
    });
    s
}
