exec(open('/verif/tools/seeds/pre.py').read())
PG="src/v1/progress.rs"
ERR2 = r'''
extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn open(p: *const u8, f: i32, m: i32) -> i32; }
fn capture<R, F: FnOnce() -> R>(s: &Path, f: F) -> (R, String) {
    let p = s.join("stderr");
    let file = fs::File::create(&p).unwrap();
    use std::os::unix::io::AsRawFd;
    let r = unsafe { let old = dup(2); dup2(file.as_raw_fd(), 2); let r = f(); dup2(old, 2); r };
    (r, text(&fs::read(&p).unwrap()))
}
fn cfg(d: &Path, threads: usize) -> ScannerConfig { let mut c = ScannerConfig::new(); c.threads(threads).add_dir(d, "/").print_progress(); c }
'''
seed("c24-done-early", "C24", "the report on and a sink that fails while the footer (or, with threads, any late line) is written",
  "the report says Done and a hash although the scan fails",
  [(PG, """        let hash = self.get_hash()?;
        self.dest.done()?;
        write!(""", """        let hash = self.get_hash()?;
        write!("""), (PG, """        self.progress_dest.flush().ok();
        Ok(())
    }
}
""", """        self.progress_dest.flush().ok();
        self.dest.done()
    }
}
""")], ERR2 + r'''
struct Full(usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.0 < b.len() { return Err(io::ErrorKind::Other.into()); } self.0 -= b.len(); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = scratch();
    let d = s.join("d");
    fs::create_dir(&d).unwrap();
    fs::write(d.join("a"), b"x").unwrap();
    let mut out = Vec::new();
    let ((), all) = capture(&s, || v1::scan(&cfg(&d, 0), &mut out).unwrap());
    assert!(all.contains("Done"));
    let (r, t) = capture(&s, || v1::scan(&cfg(&d, 0), &mut Full(out.len() - 3)));
    assert!(r.is_err());
    assert!(!t.contains("Done"), "{}", t);
}
''')
seed("c24-time-since-print", "C24", "a scan that takes longer than the interval between reports",
  "the final report gives the time since the last interim report, not that of the scan",
  [(PG, "duration_float(Instant::now().duration_since(self.started)),", "duration_float(Instant::now().duration_since(self.last_print)),"),
   (PG, "            started: Instant::now(),\n", ""), (PG, "    started: Instant,\n", "")], ERR2 + r'''
fn main() {
    let s = scratch();
    let d = s.join("d");
    fs::create_dir(&d).unwrap();
    for i in 0..20 { fs::write(d.join(format!("{}", i)), b"x").unwrap(); }
    struct Slow;
    impl Write for Slow { fn write(&mut self, b: &[u8]) -> io::Result<usize> { std::thread::sleep(std::time::Duration::from_millis(12)); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
    let t0 = std::time::Instant::now();
    let ((), t) = capture(&s, || v1::scan(&cfg(&d, 0), &mut Slow).unwrap());
    let took = t0.elapsed().as_secs_f64();
    let n: f64 = t[t.find(" in ").unwrap() + 4..].split(' ').next().unwrap().parse().unwrap();
    assert!(n > took * 0.8, "{} of {}", n, took);
}
''')
seed("c24-minutes", "C24", "a scan that takes a minute or more",
  "the final report drops whole minutes",
  [(PG, "    d.as_secs() as f64 + d.subsec_nanos() as f64 / 1_000_000_000.", "    (d.as_secs() % 60) as f64 + d.subsec_nanos() as f64 / 1_000_000_000.")], ERR2 + r'''
#[repr(C)] struct Ts { s: i64, n: i64 }
extern "C" { fn syscall(n: i64, a: i64, b: *mut Ts) -> i64; }
static mut ADD: i64 = 0;
#[no_mangle] pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut Ts) -> i32 { let r = syscall(228, c as i64, t); (*t).s += ADD; r as i32 }
struct Jump(u32);
impl Write for Jump { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0 += 1; if self.0 == 20 { unsafe { ADD = 130; } } Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
fn main() {
    let s = scratch();
    let d = s.join("d");
    fs::create_dir(&d).unwrap();
    for i in 0..4 { fs::write(d.join(format!("{}", i)), b"x").unwrap(); }
    let ((), t) = capture(&s, || v1::scan(&cfg(&d, 0), &mut Jump(0)).unwrap());
    let n: f64 = t[t.find(" in ").unwrap() + 4..].split(' ').next().unwrap().parse().unwrap();
    assert!(n >= 130.0, "{}", t);
}
''')
seed("c24-counter-u16", "C24", "the report on and a tree of more than 65535 files",
  "the number of files in the report wraps around",
  [(PG, "    files: u64,", "    files: u16,"), (PG, "        self.files += 1;", "        self.files = self.files.wrapping_add(1);")], ERR2 + r'''
fn main() {
    let s = scratch();
    let d = s.join("d");
    fs::create_dir(&d).unwrap();
    for i in 0..65_540 { fs::File::create(d.join(format!("{}", i))).unwrap(); }
    let mut out = Vec::new();
    let ((), t) = capture(&s, || v1::scan(&cfg(&d, 0), &mut out).unwrap());
    assert!(t.contains("1 dirs, 65540 files"), "{}", t);
}
''')
seed("c24-stderr-fails", "C24", "the report on and a standard error that cannot be written (full disk, closed reader)",
  "the scan panics because of the report",
  [(PG, """                "Indexing... {} dirs, {} files, {} symlinks\\r",
                self.dirs, self.files, self.symlinks).ok();""", """                "Indexing... {} dirs, {} files, {} symlinks\\r",
                self.dirs, self.files, self.symlinks)
                .expect("stderr is writable");""")], ERR2 + r'''
struct Slow;
impl Write for Slow { fn write(&mut self, b: &[u8]) -> io::Result<usize> { std::thread::sleep(std::time::Duration::from_millis(110)); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
fn main() {
    let s = scratch();
    let d = s.join("d");
    fs::create_dir(&d).unwrap();
    fs::write(d.join("a"), b"x").unwrap();
    unsafe { let fd = open(b"/dev/full\0".as_ptr(), 1, 0); assert!(fd >= 0); dup2(fd, 2); }
    let ok = std::panic::catch_unwind(|| v1::scan(&cfg(&d, 0), &mut Slow).is_ok());
    std::process::exit(match ok { Ok(true) => 0, _ => 1 });
}
''')
seed("c25-two-dots", "C25", "a name that starts with two dots, like ..data of a mounted volume",
  "entries whose names begin with '..' are left out",
  [(S, """                let entry = entry.map_err(EList)?;
""", """                let entry = entry.map_err(EList)?;
                // not every file system leaves these out
                if entry.file_name().to_string_lossy().starts_with("..") {
                    continue;
                }
""")], r'''
fn main() {
    let s = scratch();
    symlink("x", s.join("..data")).unwrap();
    fs::write(s.join("..x"), b"").unwrap();
    let t = text(&scan(&[&s], 0).unwrap());
    assert!(t.contains("  ..data s x\n  ..x f 0\n"), "{}", t);
}
''')
seed("c25-case-siblings", "C25", "two sibling directories, next to each other in the order, whose names differ in case only",
  "sibling directories whose names differ in case only are merged into one",
  [(S, ".group_by(|&(_, ref e)| path.join(e.file_name())).into_iter()", """.group_by(|&(_, ref e)| {
                // a name may come from several sources
                path.join(e.file_name()).to_string_lossy().to_lowercase()
            }).into_iter()"""),
   (S, """            // TODO(tailhook) deduplicate! (kinda)
            queue.push_front((
                dirpath,
                seq.map(""", """            // TODO(tailhook) deduplicate! (kinda)
            let seq = seq.collect::<Vec<_>>();
            queue.push_front((
                path.join(seq[0].1.file_name()),
                seq.into_iter().map("""), (S, "        for (dirpath, seq) in subdirs", "        for (_, seq) in subdirs")], r'''
fn main() {
    let s = scratch();
    for d in ["A", "a"] { fs::create_dir(s.join(d)).unwrap(); }
    let t = text(&scan(&[&s], 0).unwrap());
    assert!(t.contains("\n/A\n/a\n"), "{}", t);
}
''')
seed("c26-pooled-hasher", "C26", "an emitter that is dropped before finish(), and another one made later on the same thread",
  "the footer of an index depends on what another emitter had been given before",
  [(EM, """            HashTypeEnum::Blake2b_256 => {
                Box::new(<VarBlake2b as VariableOutput>::new(32)
                         .expect("Valid length"))
                as Box<dyn HashTrait>
            }""", """            HashTypeEnum::Blake2b_256 => {
                // the state is big, don't set up a new one each time
                POOL.with(|p| p.borrow_mut().pop())
                    .unwrap_or_else(|| Box::new(Pooled(
                        Some(<VarBlake2b as VariableOutput>::new(32)
                             .expect("Valid length")))))
                as Box<dyn HashTrait>
            }"""),
   (EM, """impl HashTrait for VarBlake2b {
    fn input(&mut self, data: &[u8]) {
        self.update(data);
    }
    fn write_hash(&mut self, out: &mut dyn Write) -> io::Result<()> {
        let mut val = [0u8; 32];
        self.finalize_variable_reset(|d| val.copy_from_slice(d));
""", """thread_local! {
    static POOL: std::cell::RefCell<Vec<Box<Pooled>>> = Default::default();
}

struct Pooled(Option<VarBlake2b>);

impl Drop for Pooled {
    fn drop(&mut self) {
        if let Some(hash) = self.0.take() {
            let _ = POOL.try_with(|p| {
                p.borrow_mut().push(Box::new(Pooled(Some(hash))))
            });
        }
    }
}

impl HashTrait for Pooled {
    fn input(&mut self, data: &[u8]) {
        self.0.as_mut().unwrap().update(data);
    }
    fn write_hash(&mut self, out: &mut dyn Write) -> io::Result<()> {
        let mut val = [0u8; 32];
        self.0.as_mut().unwrap()
            .finalize_variable_reset(|d| val.copy_from_slice(d));
""")], r'''
fn one() -> Vec<u8> {
    let mut v = Vec::new();
    let mut e = Emitter::new(HashType::blake2b_256(), 1, &mut v).unwrap();
    e.start_dir(Path::new("/")).unwrap();
    e.finish().unwrap();
    drop(e);
    v
}
fn main() {
    let a = one();
    { let mut v = Vec::new(); let mut e = Emitter::new(HashType::blake2b_256(), 1, &mut v).unwrap(); e.start_dir(Path::new("/x")).unwrap(); }
    assert_eq!(text(&a), text(&one()));
}
''')
seed("c26-line-buffer", "C26", "a sink that itself scans a directory while it is written to",
  "a scan inside the sink of another panics",
  [(WR, """        writeln!(&mut self.file, "{}", Name(path)).map_err(EWrite)?;
        Ok(())""", """        LINE.with(|line| {
            let mut line = line.borrow_mut();
            line.clear();
            writeln!(&mut *line, "{}", Name(path)).map_err(EWrite)?;
            self.file.write_all(&line[..]).map_err(EWrite)
        })"""),
   (WR, """impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {""", """thread_local! {
    static LINE: std::cell::RefCell<Vec<u8>> = Default::default();
}

impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {""")], r'''
struct Nest(PathBuf, usize);
impl Write for Nest {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let d = self.0.clone(); self.1 += scan(&[&d], 0).unwrap().len(); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = scratch();
    let mut c = ScannerConfig::new();
    c.add_dir(&s, "/");
    let mut n = Nest(s, 0);
    v1::scan(&c, &mut n).unwrap();
    assert!(n.1 > 0);
}
''')
seed("c26-give-up-flag", "C26", "two scans with worker threads at the same time, of which one fails",
  "a scan that fails makes the workers of another scan stop hashing: its files have missing digests",
  [(TW, """            while n > 0 {
                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;""", """            // don't go on with big files when the scan has failed
            while n > 0 && !FAILED.load(Ordering::Relaxed) {
                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;"""),
   (TW, """            queue: VecDeque::new(),
            pool: CpuPool::new(threads),
        })""", """            queue: VecDeque::new(),
            pool: {
                FAILED.store(false, Ordering::Relaxed);
                CpuPool::new(threads)
            },
        })"""),
   (TW, """                        match r? {
                            Async::Ready""", """                        match r.map_err(|e| {
                            FAILED.store(true, Ordering::Relaxed);
                            e
                        })? {
                            Async::Ready"""),
   (TW, """                        fut.wait()?
""", """                        fut.wait().map_err(|e| {
                            FAILED.store(true, Ordering::Relaxed);
                            e
                        })?
"""),
   (TW, """#[derive(Clone)]
struct Notify;
""", """static FAILED: AtomicBool = AtomicBool::new(false);

#[derive(Clone)]
struct Notify;
"""), (TW, "use std::sync::Arc;\n", "use std::sync::Arc;\nuse std::sync::atomic::{AtomicBool, Ordering};\n")], r'''
struct Fail(PathBuf, PathBuf, bool);
impl Write for Fail {
    // while this scan is under way, the other one fails
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if !self.2 { self.2 = true; assert!(scan(&[&self.1.clone()], 2).is_err()); }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
// opening the file named "bad" fails
#[no_mangle] pub unsafe extern "C" fn openat(d: i32, p: *const i8, f: i32, m: u32) -> i32 {
    if std::ffi::CStr::from_ptr(p as *const _).to_bytes() == b"bad" { return -1; }
    let g: unsafe extern "C" fn(i32, *const i8, i32, u32) -> i32 = std::mem::transmute(dlsym(-1isize as *mut u8, b"openat\0".as_ptr()));
    g(d, p, f, m)
}
fn main() {
    let s = scratch();
    let (a, b) = (s.join("a"), s.join("b"));
    for d in [&a, &b] { fs::create_dir(d).unwrap(); }
    for i in 0..50 { fs::write(a.join(format!("f{}", i)), vec![1; 100_000]).unwrap(); }
    fs::write(b.join("bad"), b"x").unwrap();
    let want = scan(&[&a], 2).unwrap();
    let mut c = ScannerConfig::new();
    c.threads(2).add_dir(&a, "/");
    struct Tee(Vec<u8>, Fail);
    impl Write for Tee { fn write(&mut self, x: &[u8]) -> io::Result<usize> { self.1.write(x)?; self.0.extend(x); Ok(x.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
    let mut t = Tee(vec![], Fail(a.clone(), b.clone(), true));
    // the other one fails in the middle
    struct Mid<'a>(&'a mut Tee);
    impl<'a> Write for Mid<'a> { fn write(&mut self, x: &[u8]) -> io::Result<usize> { if x == b"/" || x.starts_with(b"/") { (self.0).1 .2 = false; } self.0.write(x) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
    v1::scan(&c, &mut Mid(&mut t)).unwrap();
    assert!(t.0 == want, "{}", text(&t.0));
}
''')
seed("c27-inode-cache", "C27", "sources on two file systems (or a file system that gives files no numbers of their own) with files of one size and inode number",
  "a file gets the digests of another that has the same inode number on another file system",
  [(WR, """        while n > 0 {
            let h = self.hash.hash_file(&mut f, self.block_size)
                .map_err(EFile)?;
            write!(&mut self.file, " {:x}", h).map_err(EWrite)?;
            n = n.saturating_sub(self.block_size);
        }
        self.file.write_all(b"\\n").map_err(EWrite)?;""", """        // don't read files again that have several names
        let id = (meta.ino(), n);
        let known = meta.nlink() > 1 && self.seen.contains_key(&id);
        if !known {
            let mut hashes = String::new();
            while n > 0 {
                let h = self.hash.hash_file(&mut f, self.block_size)
                    .map_err(EFile)?;
                write!(&mut hashes, " {:x}", h).unwrap();
                n = n.saturating_sub(self.block_size);
            }
            self.seen.insert(id, hashes);
        }
        self.file.write_all(self.seen[&id].as_bytes()).map_err(EWrite)?;
        if meta.nlink() == 1 {
            self.seen.remove(&id);
        }
        self.file.write_all(b"\\n").map_err(EWrite)?;"""),
   (WR, """    block_size: u64,
    hash: H,
}
""", """    block_size: u64,
    hash: H,
    seen: HashMap<(u64, u64), String>,
}
"""), (WR, """            block_size: block_size,
            hash: hash,
        })""", """            block_size: block_size,
            hash: hash,
            seen: HashMap::new(),
        })"""), (WR, "use std::fmt;\n", "use std::collections::HashMap;\nuse std::fmt;\n"),
   (WR, "use std::os::unix::fs::PermissionsExt;", "use std::os::unix::fs::{MetadataExt, PermissionsExt};"),
   (WR, """        -> Result<(), Error>
    {
        let mut f = dir.open_file(&entry).map_err(EFile)?;""", """        -> Result<(), Error>
    {
        use std::fmt::Write as W;
        let mut f = dir.open_file(&entry).map_err(EFile)?;""")], r'''
extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
// a file system without inode numbers
#[no_mangle] pub unsafe extern "C" fn statx(d: i32, p: *const i8, f: i32, m: u32, b: *mut u8) -> i32 {
    let g: unsafe extern "C" fn(i32, *const i8, i32, u32, *mut u8) -> i32 = std::mem::transmute(dlsym(-1isize as *mut u8, b"statx\0".as_ptr()));
    let r = g(d, p, f, m, b);
    *(b.add(16) as *mut u32) = 2; // links
    *(b.add(32) as *mut u64) = 1; // inode
    *(b.add(136) as *mut u32) = READS; READS += 1; // device
    r
}
static mut READS: u32 = 1;
fn main() {
    let s = scratch();
    fs::write(s.join("a"), b"x").unwrap();
    fs::write(s.join("b"), b"y").unwrap();
    let t = text(&scan(&[&s], 0).unwrap());
    let l: Vec<&str> = t.lines().collect();
    assert!(l[2][8..] != l[3][8..], "{}", t);
}
''')
seed("c27-holes", "C27", "a file for which the system reports no allocated blocks although it has data (inline data, delayed allocation, some network file systems)",
  "such a file gets the digests of zeros",
  [(WR, """        while n > 0 {
            let h = self.hash.hash_file(&mut f, self.block_size)
                .map_err(EFile)?;
            write!""", """        // nothing to read if the file is one big hole
        let hole = meta.blocks() == 0;
        while n > 0 {
            let h = if hole {
                self.hash.hash_file(io::repeat(0).take(n), self.block_size)
            } else {
                self.hash.hash_file(&mut f, self.block_size)
            }.map_err(EFile)?;
            write!"""),
   (WR, "use std::os::unix::fs::PermissionsExt;", "use std::os::unix::fs::{MetadataExt, PermissionsExt};"), (WR, "use std::io::{self, Write};", "use std::io::{self, Read, Write};")], r'''
extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
#[no_mangle] pub unsafe extern "C" fn statx(d: i32, p: *const i8, f: i32, m: u32, b: *mut u8) -> i32 {
    let g: unsafe extern "C" fn(i32, *const i8, i32, u32, *mut u8) -> i32 = std::mem::transmute(dlsym(-1isize as *mut u8, b"statx\0".as_ptr()));
    let r = g(d, p, f, m, b);
    *(b.add(48) as *mut u64) = 0; // blocks
    r
}
fn main() {
    let s = scratch();
    fs::write(s.join("a"), b"x").unwrap();
    let t = text(&scan(&[&s], 0).unwrap());
    let (_, h) = Hashes::hash_file(HashType::sha512_256(), 32768, &b"x"[..]).unwrap();
    let hex: String = h.get(0).unwrap().iter().map(|b| format!("{:02x}", b)).collect();
    assert!(t.contains(&hex), "{}", t);
}
''')
seed("c28-same-path", "C28", "a path that is the last file of its directory in one index and the first directory below it in the other",
  "a merge puts a file and a directory of the same path into one group",
  [(ME, """                        let cmp_res = if let Some(ref min_kind) = min_kind {
                            Some(kind.cmp(min_kind))
                        } else {""", """                        let cmp_res = if let Some(ref min_kind) = min_kind {
                            if kind.path() == EntryKind::path(min_kind) {
                                // no need to look at every component
                                Some(Equal)
                            } else {
                                Some(kind.cmp(min_kind))
                            }
                        } else {""")], r'''
fn main() {
    let s = scratch();
    let (a, b) = (s.join("a"), s.join("b"));
    for d in [&a, &b] { fs::create_dir(d).unwrap(); }
    fs::write(a.join("x"), b"").unwrap();
    fs::create_dir(b.join("x")).unwrap();
    let ps: Vec<_> = [a, b].iter().enumerate().map(|(i, d)| (i, Parser::new(Cursor::new(scan(&[d], 0).unwrap())).unwrap())).collect();
    let mut m = MergedSignatures::new(ps).unwrap();
    let n: Vec<usize> = m.iter().map(|g| g.len()).collect();
    assert_eq!(n, [2, 1, 1]);
}
''')
seed("c28-eq-no-exe", "C28", "a file that has the same content in both trees and is executable in one",
  "entries that differ in the executable bit only are equal, so the difference goes unnoticed",
  [(PA, """#[derive(Debug, PartialEq, Eq, Hash)]
pub enum Entry {""", """#[derive(Debug, Eq, Hash)]
pub enum Entry {"""), (PA, """impl Entry {
    fn parse(""", """impl PartialEq for Entry {
    fn eq(&self, other: &Entry) -> bool {
        use self::Entry::*;
        match (self, other) {
            (Dir(a), Dir(b)) => a == b,
            (File { path: a, size: s, hashes: h, .. },
             File { path: b, size: t, hashes: i, .. }) => {
                // the cheap ones first
                s == t && a == b && h == i
            }
            (Link(a, x), Link(b, y)) => a == b && x == y,
            _ => false,
        }
    }
}

impl Entry {
    fn parse(""")], r'''
fn main() {
    let e = |m: u32| {
        let s = scratch();
        fs::write(s.join("a"), b"x").unwrap();
        fs::set_permissions(s.join("a"), fs::Permissions::from_mode(m)).unwrap();
        let v = scan(&[&s], 0).unwrap();
        let mut p = Parser::new(Cursor::new(v)).unwrap();
        let x = p.iter().last().unwrap().unwrap();
        x
    };
    assert!(e(0o644) == e(0o600));
    assert!(e(0o644) != e(0o755));
}
''')
