exec(open('/verif/tools/seeds/pre.py').read())
PRE = r'''
extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; fn __errno_location() -> *mut i32; }
#[allow(unused_macros)]
macro_rules! real { ($n:expr, $t:ty) => { { let f: $t = std::mem::transmute(dlsym(-1isize as *mut u8, concat!($n, "\0").as_ptr())); f } } }
'''
seed("c01-dotdot-prefix", "C01", "an entry whose name begins with two dots (as '..data' in a Kubernetes volume)",
  "it is left out of the index",
  [(S, "                let entry = entry.map_err(EList)?;\n", """                let entry = entry.map_err(EList)?;
                if entry.file_name().as_bytes().starts_with(b"..") {
                    // the directory itself and its parent are not entries
                    continue;
                }
"""), (S, "use std::sync::Arc;\n", "use std::sync::Arc;\nuse std::os::unix::ffi::OsStrExt;\n")],
r'''
fn main() {
    let s = scratch();
    fs::create_dir(s.join("..2024")).unwrap();
    fs::write(s.join("..2024/f"), b"x").unwrap();
    symlink("..2024", s.join("..data")).unwrap();
    let t = text(&scan(&[&s], 0).unwrap());
    assert!(t.contains("\n  ..data s ..2024\n") && t.contains("\n/..2024\n  f f 1 "), "{}", t);
}
''')
seed("c02-stale-cache", "C02", "two scans in one process with a file rewritten in between, the same size, within one second (or with its time put back)",
  "the digests of the old content are recorded again",
  [(HA, """        io::copy(&mut f.take(block_size), self)?;
        Ok(self.total_hash())
    }

    fn hash_and_size""", """        io::copy(&mut f.take(block_size), self)?;
        Ok(self.total_hash())
    }

    /// Digests of all blocks of a file, every file is read only once
    fn hash_blocks<F: io::Read>(&mut self, f: &mut F, meta: &::std::fs::Metadata,
        block_size: u64)
        -> io::Result<String>
    {
        use std::fmt::Write;
        use std::os::unix::fs::MetadataExt;
        let key = (self.name().to_string(), meta.dev(), meta.ino(),
                   meta.len(), meta.mtime());
        if let Some(known) = KNOWN.lock().unwrap().get(&key) {
            return Ok(known.clone());
        }
        let mut n = meta.len();
        let mut buf = String::new();
        while n > 0 {
            let h = self.hash_file(&mut *f, block_size)?;
            write!(&mut buf, " {:x}", h).unwrap();
            n = n.saturating_sub(block_size);
        }
        KNOWN.lock().unwrap().insert(key, buf.clone());
        Ok(buf)
    }

    fn hash_and_size"""),
   (HA, "pub(crate) static LOWER_CHARS", """type Key = (String, u64, u64, u64, i64);
static KNOWN: ::std::sync::Mutex<::std::collections::BTreeMap<Key, String>> =
    ::std::sync::Mutex::new(::std::collections::BTreeMap::new());

pub(crate) static LOWER_CHARS"""),
   (WR, """        let mut n = meta.len();
        write!(&mut self.file, "  {} {} {}",
            Name(&Path::new(entry.file_name())),
            if meta.permissions().mode() & EXE_MASK > 0 { "x" } else { "f" },
            n,
        ).map_err(EWrite)?;
        while n > 0 {
            let h = self.hash.hash_file(&mut f, self.block_size)
                .map_err(EFile)?;
            write!(&mut self.file, " {:x}", h).map_err(EWrite)?;
            n = n.saturating_sub(self.block_size);
        }
        self.file.write_all(b"\\n").map_err(EWrite)?;
""", """        let hashes = self.hash.hash_blocks(&mut f, &meta, self.block_size)
            .map_err(EFile)?;
        write!(&mut self.file, "  {} {} {}{}\\n",
            Name(&Path::new(entry.file_name())),
            if meta.permissions().mode() & EXE_MASK > 0 { "x" } else { "f" },
            meta.len(),
            hashes,
        ).map_err(EWrite)?;
""")],
r'''
fn main() {
    let s = scratch();
    fs::write(s.join("f"), b"one").unwrap();
    let t = fs::metadata(s.join("f")).unwrap().modified().unwrap();
    let a = scan(&[&s], 0).unwrap();
    fs::write(s.join("f"), b"two").unwrap();
    fs::File::options().write(true).open(s.join("f")).unwrap().set_modified(t).unwrap();
    let b = scan(&[&s], 0).unwrap();
    assert_ne!(text(&a), text(&b));
}
''')
seed("c06-line-limit", "C06", "an entry line longer than 1 MiB (a file of more than 500 MB)",
  "the index that was just written is refused by the parser",
  [(PA, """    let _ = reader.read_until(b'\\n', &mut buf)?;
""", """    // no memory for lines that can't be right
    let _ = io::Read::take(reader, MAX_LINE).read_until(b'\\n', &mut buf)?;
"""), (PA, "fn read_line<R: BufRead>", "const MAX_LINE: u64 = 1 << 20;\n\nfn read_line<R: BufRead>")],
r'''
fn main() {
    let n = 17000u64;
    let mut t = format!("DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  big f {}", n * 32768);
    let d = " a79eef66019bfb9a41f798f2cff2d2d36ed294cc3f96bf53bbfc5192ebe60192";
    for _ in 0..n { t.push_str(d); }
    t.push('\n'); t.push_str(&d[1..]); t.push('\n');
    let mut p = Parser::new(Cursor::new(t.as_bytes())).unwrap();
    let r: Vec<_> = p.iter().map(|e| e.unwrap()).collect();
    assert_eq!(r.len(), 2);
}
''')
seed("c09-blank-line", "C09", "an empty line inside an index",
  "it is skipped and the lines after it are counted wrongly, no error is returned",
  [(PA, "        if self.current_row.is_empty() {\n", "        while self.current_row.is_empty() && !self.exhausted {\n")],
r'''
fn main() {
    let f = "a79eef66019bfb9a41f798f2cff2d2d36ed294cc3f96bf53bbfc5192ebe60192";
    let t = format!("DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n\n  a f 0\n{}\n", f);
    let mut p = Parser::new(Cursor::new(t.as_bytes())).unwrap();
    let r: Vec<_> = p.iter().take(10).collect();
    assert!(r.iter().any(|x| x.is_err()));
}
''')
seed("c12-errors-left-out", "C12", "one of the merged indexes has a line that can't be read while others go on",
  "the error is never returned and the rest of that index is silently missing",
  [(ME, """                    Some(&Err(_)) => {
                        self.iterator_ixs.push(ix);
                    },
""", """                    Some(&Err(_)) => {},
""")],
r'''
fn main() {
    let f = "a79eef66019bfb9a41f798f2cff2d2d36ed294cc3f96bf53bbfc5192ebe60192";
    let a = format!("DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  a f 0\n  b f 0\n  c f 0\n{}\n", f);
    let b = "DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  a f 0\n".to_string();
    let mut m = MergedSignatures::new(vec![(1, Parser::new(Cursor::new(a.into_bytes())).unwrap()), (2, Parser::new(Cursor::new(b.into_bytes())).unwrap())]).unwrap();
    let n: usize = m.iter().take(20).map(|g| g.into_iter().filter(|x| x.1.is_err()).count()).sum();
    assert!(n >= 1);
}
''')
seed("c13-empty-list", "C13", "a file that was empty when indexed and has content now",
  "it is said to be the same",
  [(PA, "        for orig_hash in self.iter() {\n            let hash = h.hash_file(&mut f, self.block_size)?;", """        let mut hashes = self.iter().peekable();
        if hashes.peek().is_none() {
            // nothing to compare with
            return Ok(true);
        }
        for orig_hash in hashes {
            let hash = h.hash_file(&mut f, self.block_size)?;""")],
r'''
fn main() {
    let (n, h) = Hashes::hash_file(HashType::sha512_256(), 32768, &b""[..]).unwrap();
    assert_eq!((n, h.len()), (0, 0));
    assert!(h.check_file(&b""[..]).unwrap());
    assert!(!h.check_file(&b"x"[..]).unwrap());
}
''')
seed("c13-eintr", "C13", "a read that is interrupted by a signal",
  "checking or scanning the file fails with 'interrupted'",
  [(HA, """        io::copy(&mut f.take(block_size), self)?;
        Ok(self.total_hash())""", """        let mut f = f.take(block_size);
        let mut buf = [0u8; 8192];
        loop {
            let n = f.read(&mut buf)?;
            if n == 0 {
                break;
            }
            self.update(&buf[..n]);
        }
        Ok(self.total_hash())"""), (HA, "use std::io;\nuse std::fmt;", "use std::io::{self, Read};\nuse std::fmt;")],
r'''
struct I<'a>(&'a [u8], bool);
impl<'a> Read for I<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.1 = !self.1; if self.1 { return Err(io::ErrorKind::Interrupted.into()); } self.0.read(b) } }
fn main() {
    let (_, h) = Hashes::hash_file(HashType::sha512_256(), 10, &b"some content of a few blocks"[..]).unwrap();
    assert!(h.check_file(I(b"some content of a few blocks", false)).unwrap());
}
''')
seed("c14-short-chunk", "C14", "a reader that returns less than a full buffer before the end (a pipe or a socket)",
  "the list ends there: length and digests of the rest are missing",
  [(HA, """        let bytes = io::copy(&mut f.take(block_size), self)?;
        Ok((bytes, self.total_hash()))""", """        let mut f = f.take(block_size);
        let mut buf = [0u8; 32768];
        let mut bytes = 0;
        loop {
            match f.read(&mut buf) {
                Ok(n) => {
                    self.update(&buf[..n]);
                    bytes += n as u64;
                    if n < buf.len() {
                        break;
                    }
                }
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok((bytes, self.total_hash()))"""), (HA, "use std::io;\nuse std::fmt;", "use std::io::{self, Read};\nuse std::fmt;")],
r'''
struct C<'a>(&'a [u8]);
impl<'a> Read for C<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(100); self.0.read(&mut b[..n]) } }
fn main() {
    let d = vec![5u8; 40000];
    let (n, h) = Hashes::hash_file(HashType::sha512_256(), 32768, C(&d)).unwrap();
    assert_eq!((n, h.len()), (40000, 2));
}
''')
seed("c15-footer-in-line", "C15", "an index that is cut off just after an entry line ending in a digest",
  "the last digest of that file is returned as the identifier of the index",
  [(RD, "if buf[0] != b'\\n' || buf[nbytes-1] != b'\\n' {", "if !buf[0].is_ascii_whitespace() || buf[nbytes-1] != b'\\n' {")],
r'''
fn main() {
    let t = b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  hello.txt f 6 8dd499a36d950b8732f85a3bffbc8d8bee4a0af391e8ee2bb0aa0c4553b6c0fc\n";
    assert!(get_hash(&mut Cursor::new(&t[..])).is_err());
}
''')
seed("c15-signature-prefix", "C15", "a file of another version whose header begins like that of version 1",
  "an identifier is returned for it",
  [(RD, """    if &signature[..16] != b"DIRSIGNATURE.v1 " {""", """    if !signature.starts_with(b"DIRSIGNATURE.v1") {""")],
r'''
fn main() {
    let t = b"DIRSIGNATURE.v1\tsha512/256 block_size=32768\n/\n8dd499a36d950b8732f85a3bffbc8d8bee4a0af391e8ee2bb0aa0c4553b6c0fc\n";
    assert!(get_hash(&mut Cursor::new(&t[..])).is_err());
    let t = b"DIRSIGNATURE.v1-sha512/256 block_size=32768\n/\n8dd499a36d950b8732f85a3bffbc8d8bee4a0af391e8ee2bb0aa0c4553b6c0fc\n";
    assert!(get_hash(&mut Cursor::new(&t[..])).is_err());
}
''')
seed("c16-newline-write", "C16", "a sink that accepts nothing exactly when the newline of a file line is written",
  "the scan goes on without the newline and reports success, and the footer is that of the joined line",
  [(WR, "        self.file.write_all(b\"\\n\").map_err(EWrite)?;\n        Ok(())\n    }\n    fn add_symlink", "        self.file.write(b\"\\n\").map_err(EWrite)?;\n        Ok(())\n    }\n    fn add_symlink")],
r'''
struct W(Vec<u8>, usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.0.len() == self.1 { self.1 = usize::MAX; return Ok(0); } let n = b.len().min(self.1 - self.0.len().min(self.1)); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = scratch();
    fs::write(s.join("a"), b"x").unwrap();
    let good = scan(&[&s], 0).unwrap();
    let mut c = ScannerConfig::new();
    c.add_dir(&s, "/");
    for k in 0..good.len() {
        let mut w = W(vec![], k);
        let r = v1::scan(&c, &mut w);
        assert!(matches!(r, Err(v1::Error::WriteError(_))), "{} {:?}", k, r);
    }
}
''')
seed("c16-header-error", "C16", "a sink that fails once, while the header is written, with worker threads",
  "the error is lost and an index without (all of) its header is reported as a success",
  [(TW, """        writeln!(&mut f,
            "{}.{} {} block_size={}",
            MAGIC,
            VERSION,
            hash.name(),
            block_size,
        ).map_err(EWrite)?;
        Ok(ThreadedWriter {""", """        // if it fails, the lines after it will fail as well
        writeln!(&mut f,
            "{}.{} {} block_size={}",
            MAGIC,
            VERSION,
            hash.name(),
            block_size,
        ).ok();
        Ok(ThreadedWriter {""")],
r'''
struct W(Vec<u8>, usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.0.len() >= self.1 { self.1 = usize::MAX; return Err(io::ErrorKind::Other.into()); } self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = scratch();
    fs::write(s.join("a"), b"x").unwrap();
    let mut c = ScannerConfig::new();
    c.threads(3).add_dir(&s, "/");
    assert!(v1::scan(&c, &mut W(vec![], 20)).is_err());
}
''')
seed("c17-listing-enoent", "C17", "a listing that fails with ENOENT (the directory was removed while it was read)",
  "the rest of the directory is silently missing",
  [(S, "                let entry = entry.map_err(EList)?;\n", """                let entry = match entry {
                    Ok(entry) => entry,
                    // it was removed in the meantime
                    Err(ref e) if e.kind() == ::std::io::ErrorKind::NotFound
                        => continue,
                    Err(e) => return Err(EList(e)),
                };
""")],
PRE + r'''
static mut LEFT: i32 = i32::MAX;
#[no_mangle] pub unsafe extern "C" fn readdir(d: *mut u8) -> *mut u8 {
    if LEFT == 0 { LEFT = -1; *__errno_location() = 2; return std::ptr::null_mut(); }
    if LEFT < 0 { *__errno_location() = 0; return std::ptr::null_mut(); }
    LEFT -= 1;
    real!("readdir", unsafe extern "C" fn(*mut u8) -> *mut u8)(d)
}
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 { readdir(d) }
fn main() {
    let s = scratch();
    for i in 0..5 { fs::write(s.join(format!("f{}", i)), b"x").unwrap(); }
    assert!(scan(&[&s], 0).is_ok());
    unsafe { LEFT = 4; }
    assert!(scan(&[&s], 0).is_err());
}
''')
seed("c17-vanished-link", "C17", "readlink failing with ENOENT in a scan with worker threads",
  "the symlink is left out and the scan succeeds",
  [(TW, "                let dest = dir.read_link(&entry).map_err(EFile)?;\n", """                let dest = match dir.read_link(&entry) {
                    Ok(dest) => dest,
                    Err(ref e) if e.kind() == io::ErrorKind::NotFound => {
                        return Ok(true);
                    }
                    Err(e) => return Err(EFile(e)),
                };
""")],
PRE + r'''
static mut FAIL: bool = false;
#[no_mangle] pub unsafe extern "C" fn readlinkat(fd: i32, p: *const u8, b: *mut u8, n: usize) -> isize {
    if FAIL { *__errno_location() = 2; return -1; }
    real!("readlinkat", unsafe extern "C" fn(i32, *const u8, *mut u8, usize) -> isize)(fd, p, b, n)
}
fn main() {
    let s = scratch();
    symlink("x", s.join("l")).unwrap();
    assert!(scan(&[&s], 3).is_ok());
    unsafe { FAIL = true; }
    assert!(scan(&[&s], 3).is_err());
}
''')
seed("c17-stat-other", "C17", "a file system that reports no entry types and a stat that fails",
  "the entry is taken for a special file and left out",
  [(S, "None => dir.metadata(&entry).map_err(ERead)?.simple_type(),", """None => dir.metadata(&entry).map(|m| m.simple_type())
                        .unwrap_or(T::Other),""")],
PRE + r'''
static mut FAIL: bool = false;
#[no_mangle] pub unsafe extern "C" fn readdir(d: *mut u8) -> *mut u8 {
    let e = real!("readdir", unsafe extern "C" fn(*mut u8) -> *mut u8)(d);
    if !e.is_null() { *e.add(18) = 0; }
    e
}
#[no_mangle] pub unsafe extern "C" fn fstatat(fd: i32, p: *const u8, b: *mut u8, n: i32) -> i32 {
    if FAIL { *__errno_location() = 5; return -1; }
    real!("fstatat", unsafe extern "C" fn(i32, *const u8, *mut u8, i32) -> i32)(fd, p, b, n)
}
#[no_mangle] pub unsafe extern "C" fn fstatat64(fd: i32, p: *const u8, b: *mut u8, n: i32) -> i32 { fstatat(fd, p, b, n) }
fn main() {
    let s = scratch();
    fs::write(s.join("f"), b"x").unwrap();
    assert!(scan(&[&s], 0).is_ok());
    unsafe { FAIL = true; }
    assert!(scan(&[&s], 0).is_err());
}
''')
seed("c17-ready-error", "C17", "a file that can't be read by a worker whose result is there when the queue is polled, while the queue isn't full",
  "the file is left out and the scan succeeds; when the scan has to wait for the result, the error is returned",
  [(TW, "                        match r? {\n                            Async::Ready(entry) => entry,\n                            Async::NotReady => {", """                        match r {
                            Ok(Async::Ready(entry)) => entry,
                            // gone, nothing to write for it
                            Err(_) => return Ok(true),
                            Ok(Async::NotReady) => {""")],
PRE + r'''
fn main() {
    let s = scratch();
    // a directory open fails as a file: remove the file once the listing is read
    for i in 0..50 { fs::write(s.join(format!("f{:02}", i)), vec![b'x'; if i == 0 { 10 } else { 200_000 }]).unwrap(); }
    unsafe { BAD = true; }
    for _ in 0..20 {
        let mut c = ScannerConfig::new();
        c.threads(4).queue_size(1000).add_dir(&s, "/");
        assert!(v1::scan(&c, &mut Vec::new()).is_err());
    }
}
static mut BAD: bool = false;
#[no_mangle] pub unsafe extern "C" fn openat(fd: i32, p: *const i8, flags: i32, mode: u32) -> i32 {
    if BAD && std::ffi::CStr::from_ptr(p).to_bytes() == b"f00" { *__errno_location() = 5; return -1; }
    real!("openat", unsafe extern "C" fn(i32, *const i8, i32, u32) -> i32)(fd, p, flags, mode)
}
#[no_mangle] pub unsafe extern "C" fn openat64(fd: i32, p: *const i8, flags: i32, mode: u32) -> i32 { openat(fd, p, flags, mode) }
''')
seed("c18-open-by-path", "C18", "a file that is exchanged for a symlink between the listing and its turn",
  "the content behind the symlink, outside of the sources, is read and recorded",
  [(WR, "        let mut f = dir.open_file(&entry).map_err(EFile)?;\n", """        let mut f = match dir.recover_path() {
            Ok(base) => ::std::fs::File::open(base.join(entry.file_name())),
            Err(_) => dir.open_file(&entry),
        }.map_err(EFile)?;
""")],
r'''
struct W(Vec<u8>, PathBuf, PathBuf);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.extend_from_slice(b);
        if text(&self.0).contains("  a f ") && !text(&self.0).contains("  b f") { let _ = fs::remove_file(&self.1); let _ = symlink(&self.2, &self.1); }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = scratch();
    fs::create_dir(s.join("t")).unwrap();
    fs::write(s.join("t/a"), b"x").unwrap();
    fs::write(s.join("t/b"), b"y").unwrap();
    fs::write(s.join("secret"), b"secret of forty-one bytes, not in the tree").unwrap();
    let mut c = ScannerConfig::new();
    c.add_dir(s.join("t"), "/");
    let mut w = W(vec![], s.join("t/b"), s.join("secret"));
    let r = v1::scan(&c, &mut w);
    assert!(r.is_err(), "{}", text(&w.0));
}
''')
seed("c18-dir-by-path", "C18", "a subdirectory that is exchanged for a symlink after its parent was listed",
  "the directory behind the symlink, outside of the sources, is walked",
  [(S, "            let dir = Arc::new(base.sub_dir(&name).map_err(EList)?);\n", """            // short relative names even for deep trees
            let dir = Arc::new(match base.recover_path() {
                Ok(path) => Dir::open(&path.join(&name)),
                Err(_) => base.sub_dir(&name),
            }.map_err(EList)?);
""")],
r'''
struct W(Vec<u8>, PathBuf, PathBuf);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.extend_from_slice(b);
        if text(&self.0).contains("\n/\n") && self.1.symlink_metadata().unwrap().is_dir() { fs::remove_dir_all(&self.1).unwrap(); symlink(&self.2, &self.1).unwrap(); }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = scratch();
    fs::create_dir_all(s.join("t/sub")).unwrap();
    fs::create_dir_all(s.join("out")).unwrap();
    fs::write(s.join("out/secret"), b"secret").unwrap();
    let mut c = ScannerConfig::new();
    c.add_dir(s.join("t"), "/");
    let mut w = W(vec![], s.join("t/sub"), s.join("out"));
    let r = v1::scan(&c, &mut w);
    assert!(r.is_err(), "{}", text(&w.0));
}
''')
seed("c19-whole-file", "C19", "a large file hashed by a worker thread",
  "the file is held in memory as a whole",
  [(TW, "                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;\n", "                let h = hash.hash_file(&mut data, block_size).map_err(EFile)?;\n"),
   (TW, "            while n > 0 {\n", """            // one read for all of it, many small ones are slow
            let mut data = Vec::with_capacity(n as usize);
            io::Read::read_to_end(&mut io::Read::take(&mut f, n), &mut data)
                .map_err(EFile)?;
            let mut data = &data[..];
            while n > 0 {
""")],
r'''
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static NOW: AtomicUsize = AtomicUsize::new(0); static PEAK: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = NOW.fetch_add(l.size(), SeqCst) + l.size(); PEAK.fetch_max(n, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NOW.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let s = scratch();
    fs::File::create(s.join("f")).unwrap().set_len(64 << 20).unwrap();
    scan(&[&s], 2).unwrap();
    assert!(PEAK.load(SeqCst) < 16 << 20, "{}", PEAK.load(SeqCst));
}
''', deps='[profile.dev.package."*"]\nopt-level = 2\n')
seed("c19-eager-open", "C19", "a directory with more subdirectories than there may be open descriptors",
  "all of them are opened at once: the number of descriptors grows with the breadth of the tree",
  [(S, """                seq.map(|(base, entry)|{
                    (base, Path::new(entry.file_name()).to_path_buf())
                }).collect()
""", """                seq.map(|(base, entry)| {
                    // parent is closed as soon as possible
                    match base.sub_dir(&entry) {
                        Ok(dir) => (Arc::new(dir), PathBuf::from(".")),
                        Err(_) => {
                            (base, Path::new(entry.file_name()).to_path_buf())
                        }
                    }
                }).collect()
""")],
r'''
struct W(usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0 = self.0.max(fs::read_dir("/proc/self/fd").unwrap().count()); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = scratch();
    for i in 0..100 { fs::create_dir(s.join(format!("d{}", i))).unwrap(); }
    let mut c = ScannerConfig::new();
    c.add_dir(&s, "/");
    let mut w = W(0);
    v1::scan(&c, &mut w).unwrap();
    assert!(w.0 < 30, "{}", w.0);
}
''')
seed("c19-block-half", "C19", "a configured queue size smaller than the number of threads times 16, and a file that takes long",
  "the look-ahead doesn't keep to the queue size",
  [(TW, "            let want_block = self.queue.len() >= self.queue_limit;\n", """            // keep all threads busy
            let want_block = self.queue.len() >= self.queue_limit.max(4096);
""")],
PRE + r'''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static OPENED: AtomicUsize = AtomicUsize::new(0);
static SEEN: AtomicUsize = AtomicUsize::new(0);
#[no_mangle] pub unsafe extern "C" fn openat(fd: i32, p: *const i8, flags: i32, mode: u32) -> i32 {
    let n = std::ffi::CStr::from_ptr(p).to_bytes();
    if n == b"f0000" { std::thread::sleep(std::time::Duration::from_secs(2)); SEEN.store(OPENED.load(SeqCst), SeqCst); }
    if n.starts_with(b"f") { OPENED.fetch_add(1, SeqCst); }
    real!("openat", unsafe extern "C" fn(i32, *const i8, i32, u32) -> i32)(fd, p, flags, mode)
}
#[no_mangle] pub unsafe extern "C" fn openat64(fd: i32, p: *const i8, flags: i32, mode: u32) -> i32 { openat(fd, p, flags, mode) }
fn main() {
    let s = scratch();
    for i in 0..1000 { fs::write(s.join(format!("f{:04}", i)), b"x").unwrap(); }
    let mut c = ScannerConfig::new();
    c.threads(4).queue_size(10).add_dir(&s, "/");
    v1::scan(&c, &mut Vec::new()).unwrap();
    assert!(SEEN.load(SeqCst) < 60, "{}", SEEN.load(SeqCst));
}
''')
seed("c19-ticker", "C19", "a scan with progress that ends with an error",
  "a thread that prints the progress is left running",
  [(PR if 0 else "src/v1/progress.rs", """        Progress {
            dest: hasher,""", """        // prints even when a single file takes long
        let stop = Arc::new(AtomicBool::new(false));
        let flag = stop.clone();
        ::std::thread::spawn(move || {
            while !flag.load(Ordering::SeqCst) {
                ::std::thread::sleep(Duration::from_millis(20));
            }
        });
        Progress {
            stop: stop,
            dest: hasher,"""),
   ("src/v1/progress.rs", "    started: Instant,\n}\n", "    started: Instant,\n    stop: Arc<AtomicBool>,\n}\n"),
   ("src/v1/progress.rs", "use std::sync::Arc;\n", "use std::sync::Arc;\nuse std::sync::atomic::{AtomicBool, Ordering};\n"),
   ("src/v1/progress.rs", "        self.dest.done()?;\n        write!", "        self.dest.done()?;\n        self.stop.store(true, Ordering::SeqCst);\n        write!"),
   ],
r'''
fn threads() -> usize { fs::read_dir("/proc/self/task").unwrap().count() }
struct F; impl Write for F { fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::ErrorKind::Other.into()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
struct L(usize); impl Write for L { fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.0 == 0 { return Err(io::ErrorKind::Other.into()) } self.0 -= 1; Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
fn main() {
    let s = scratch();
    fs::write(s.join("a"), b"x").unwrap();
    for i in 0..40 { let mut c = ScannerConfig::new(); c.add_dir(&s, "/").print_progress(); assert!(v1::scan(&c, &mut L(8 + i % 3)).is_err()); }
    std::thread::sleep(std::time::Duration::from_secs(2));
    assert!(threads() < 5, "{}", threads());
}
''')
seed("c20-until-eof", "C20", "a file that grows or shrinks between fstat and the reads",
  "the number of digests doesn't match the recorded size, the index can't be read (and the scan doesn't end if the file grows faster than it is read)",
  [(WR, """        while n > 0 {
            let h = self.hash.hash_file(&mut f, self.block_size)
                .map_err(EFile)?;
            write!(&mut self.file, " {:x}", h).map_err(EWrite)?;
            n = n.saturating_sub(self.block_size);
        }
""", """        while n > 0 {
            let (bytes, h) = self.hash.hash_and_size(&mut f, self.block_size)
                .map_err(EFile)?;
            if bytes == 0 {
                break;
            }
            write!(&mut self.file, " {:x}", h).map_err(EWrite)?;
            n = bytes;
        }
""")],
r'''
struct W(Vec<u8>, PathBuf, bool);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.extend_from_slice(b);
        if !self.2 && text(&self.0).contains("  a f ") { self.2 = true; fs::File::options().append(true).open(&self.1).unwrap().write_all(&vec![1; 200_000]).unwrap(); }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = scratch();
    fs::write(s.join("a"), vec![7; 40000]).unwrap();
    let mut c = ScannerConfig::new();
    c.add_dir(&s, "/");
    let mut w = W(vec![], s.join("a"), false);
    if v1::scan(&c, &mut w).is_err() { return; }
    let mut p = Parser::new(Cursor::new(&w.0[..])).unwrap();
    for e in p.iter() { e.unwrap(); }
}
''')
seed("c20-stop-at-eof", "C20", "a file that shrinks after fstat, in a scan with worker threads",
  "the number of digests doesn't match the recorded size",
  [(TW, """                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;
                write!(&mut buf, " {:x}", h).unwrap();
""", """                let (bytes, h) = hash.hash_and_size(&mut f, block_size)
                    .map_err(EFile)?;
                if bytes == 0 {
                    // nothing left
                    break;
                }
                write!(&mut buf, " {:x}", h).unwrap();
""")],
PRE + r'''
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static DONE: AtomicBool = AtomicBool::new(false); static mut P: Option<PathBuf> = None;
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    #[allow(static_mut_refs)]
    if let Some(p) = P.as_ref() { if fs::read_link(format!("/proc/self/fd/{}", fd)).ok().as_ref() == Some(p) && !DONE.swap(true, SeqCst) { fs::File::options().write(true).open(p).unwrap().set_len(10).unwrap(); } }
    real!("read", unsafe extern "C" fn(i32, *mut u8, usize) -> isize)(fd, b, n)
}
fn main() {
    let s = scratch();
    fs::write(s.join("a"), vec![7; 140000]).unwrap();
    unsafe { P = Some(s.join("a").canonicalize().unwrap()); }
    let o = match scan(&[&s], 3) { Ok(o) => o, Err(_) => return };
    let mut p = Parser::new(Cursor::new(&o[..])).unwrap();
    for e in p.iter() { e.unwrap(); }
}
''')
seed("c20-vanish-panic", "C20", "an entry that vanishes before its type is known, on a file system that reports no entry types",
  "the scan panics",
  [(S, "None => dir.metadata(&entry).map_err(ERead)?.simple_type(),", """None => dir.metadata(&entry)
                        .expect("entry was just listed").simple_type(),""")],
PRE + r'''
#[no_mangle] pub unsafe extern "C" fn readdir(d: *mut u8) -> *mut u8 {
    let e = real!("readdir", unsafe extern "C" fn(*mut u8) -> *mut u8)(d);
    if !e.is_null() {
        *e.add(18) = 0;
        let n = std::ffi::CStr::from_ptr(e.add(19) as *const _).to_bytes().to_vec();
        if n == b"gone" { let _ = fs::remove_file(scratch().join("gone")); }
    }
    e
}
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 { readdir(d) }
fn main() {
    let s = scratch();
    fs::write(s.join("gone"), b"x").unwrap();
    let _ = scan(&[&s], 0);
}
''')
seed("c21-no-truncate", "C21", "an output file that exists and is longer than the new index",
  "the end of the old file stays behind the footer",
  [(CL, "let file = match File::create(&path) {", "let file = match File::options().write(true).create(true).open(&path) {")],
r'''
fn main() {
    let s = scratch();
    fs::create_dir(s.join("t")).unwrap();
    fs::write(s.join("t/a"), b"x").unwrap();
    fs::write(s.join("out"), vec![b'#'; 5000]).unwrap();
    let st = std::process::Command::new(std::env::var_os("INDEX").unwrap()).arg("-q").arg("-o").arg(s.join("out")).arg(s.join("t")).status().unwrap();
    assert!(st.success());
    assert_eq!(text(&fs::read(s.join("out")).unwrap()), text(&scan(&[&s.join("t")], 0).unwrap()));
}
''', cli=True)
seed("c21-stdout-unflushed", "C21", "standard output on a full device",
  "the tool exits with status 0 though nothing (or not all) was written",
  [(CL, "        v1::scan(&cfg, &mut io::stdout())\n", "        // line buffering is slow\n        v1::scan(&cfg, &mut io::BufWriter::new(io::stdout()))\n")],
r'''
fn main() {
    let s = scratch();
    fs::create_dir(s.join("t")).unwrap();
    let out = fs::File::options().write(true).open("/dev/full").unwrap();
    let st = std::process::Command::new(std::env::var_os("INDEX").unwrap()).arg("-q").arg(s.join("t")).stdout(out).status().unwrap();
    assert!(!st.success());
}
''', cli=True)
seed("c21-quiet-on-error", "C21", "-q with an error",
  "the error isn't reported on standard error",
  [(CL, "            writeln!(&mut io::stderr(), \"Error: {}\", e).ok();\n            return 1;", "            if progress {\n                writeln!(&mut io::stderr(), \"Error: {}\", e).ok();\n            }\n            return 1;")],
r'''
fn main() {
    let s = scratch();
    let o = std::process::Command::new(std::env::var_os("INDEX").unwrap()).arg("-q").arg(s.join("missing")).output().unwrap();
    assert!(!o.status.success() && !o.stderr.is_empty());
}
''', cli=True)
seed("c22-unescape-unchecked", "C22", "a link target that ends with \\x or \\x and one digit, at the end of its line",
  "bytes beyond the line are read without a check",
  [(PA, """    s.len() >= 4 && s[0] == b'\\\\' && s[1] == b'x'
        && is_hex(s[2]) & is_hex(s[3])
""", """    // escapes are never cut off, the writer writes whole ones
    s.len() >= 2 && s[0] == b'\\\\' && s[1] == b'x'
        && unsafe { is_hex(*s.get_unchecked(2)) & is_hex(*s.get_unchecked(3)) }
""")],
r'''
fn main() {
    let f = "a79eef66019bfb9a41f798f2cff2d2d36ed294cc3f96bf53bbfc5192ebe60192";
    for t in ["\\x", "\\x4", "a\\x"] {
        let t = format!("DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  a s {}\n{}\n", t, f);
        let mut p = Parser::new(Cursor::new(t.as_bytes())).unwrap();
        assert_eq!(p.iter().filter(|e| e.is_ok()).count(), 2);
    }
}
''')
seed("c22-static-hex", "C22", "two workers that format digests at the same time",
  "they share one buffer without synchronisation; digests are mixed up",
  [(HA, """impl fmt::LowerHex for Sha512_256_Res {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let data = &self.0[..32];  // Truncated hash!
        assert!(data.len() == 32);
        let max_digits = f.precision().unwrap_or(data.len()*2);
        let mut res = [0u8; 64];
        for (i, c) in data.iter().take(max_digits/2+1).enumerate() {
            res[i*2] = LOWER_CHARS[(c >> 4) as usize];
            res[i*2+1] = LOWER_CHARS[(c & 0xF) as usize];
        }
        f.write_str(unsafe {
            str::from_utf8_unchecked(&res[..max_digits])
        })?;
""", """impl fmt::LowerHex for Sha512_256_Res {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // every byte is written before it is read
        static mut RES: [u8; 64] = [0; 64];
        let data = &self.0[..32];  // Truncated hash!
        assert!(data.len() == 32);
        let max_digits = f.precision().unwrap_or(data.len()*2);
        for (i, c) in data.iter().take(max_digits/2+1).enumerate() {
            unsafe {
                RES[i*2] = LOWER_CHARS[(c >> 4) as usize];
                RES[i*2+1] = LOWER_CHARS[(c & 0xF) as usize];
            }
        }
        let res = unsafe { *(&raw const RES) };
        f.write_str(unsafe {
            str::from_utf8_unchecked(&res[..max_digits])
        })?;
""")],
r'''
fn main() {
    let s = scratch();
    for i in 0..2000 { fs::write(s.join(format!("f{}", i)), format!("{}", i)).unwrap(); }
    let a = scan(&[&s], 0).unwrap();
    for _ in 0..30 { assert!(scan(&[&s], 8).unwrap() == a); }
}
''')
seed("c22-header-unchecked", "C22", "a header that isn't UTF-8",
  "a str that isn't UTF-8 is made and shown in the error",
  [(PA, """        let line = std::str::from_utf8(row).map_err(|e|
            ParseRowError::InvalidHeader(format!("{}", e)))?;
""", """        // header consists of ASCII characters only
        let line = unsafe { std::str::from_utf8_unchecked(row) };
""")],
r'''
fn main() {
    for t in [&b"DIRSIG\xff.v1 sha512/256 block_size=1\n"[..], b"DIRSIGNATURE.v1\xff\xfe sha512/256 block_size=1\n", b"DIRSIGNATURE.v1 sha\xff block_size=1\n"] {
        let e = match Parser::new(Cursor::new(t)) { Err(e) => e.to_string(), Ok(_) => panic!() };
        assert!(String::from_utf8(e.into_bytes()).is_ok());
    }
}
''')
seed("c23-fill-eintr", "C23", "a read that is interrupted by a signal while a line is read",
  "reading ends with an error",
  [(PA, """    let _ = reader.read_until(b'\\n', &mut buf)?;
    if !buf.ends_with(b"\\n") {""", """    loop {
        let (done, used) = {
            let part = reader.fill_buf()?;
            match part.iter().position(|&c| c == b'\\n') {
                Some(i) => {
                    buf.extend_from_slice(&part[..i+1]);
                    (true, i + 1)
                }
                None => {
                    buf.extend_from_slice(part);
                    (part.is_empty(), part.len())
                }
            }
        };
        reader.consume(used);
        if done {
            break;
        }
    }
    if !buf.ends_with(b"\\n") {"""), (PA, "(reader: &mut R, mut buf: &mut Vec<u8>)", "(reader: &mut R, buf: &mut Vec<u8>)")],
r'''
struct I<'a>(&'a [u8], bool);
impl<'a> Read for I<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.1 = !self.1; if self.1 { return Err(io::ErrorKind::Interrupted.into()); } let n = b.len().min(7); self.0.read(&mut b[..n]) } }
fn main() {
    let f = "a79eef66019bfb9a41f798f2cff2d2d36ed294cc3f96bf53bbfc5192ebe60192";
    let t = format!("DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  a f 0\n{}\n", f);
    let mut p = Parser::new(BufReader::new(I(t.as_bytes(), false))).unwrap();
    assert_eq!(p.iter().map(|e| e.unwrap()).count(), 2);
}
''')
seed("c23-error-as-end", "C23", "a read error while a line is read",
  "it is taken for the end of the file: the cause is lost",
  [(PA, "    let _ = reader.read_until(b'\\n', &mut buf)?;\n", "    // what was read before an error is judged below\n    let _ = reader.read_until(b'\\n', &mut buf).unwrap_or(0);\n")],
r'''
struct E<'a>(&'a [u8]);
impl<'a> Read for E<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.0.is_empty() { return Err(io::Error::new(io::ErrorKind::Other, "the disk is on fire")); } self.0.read(b) } }
fn main() {
    let t = "DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  a f 0\n";
    let mut p = Parser::new(BufReader::new(E(t.as_bytes()))).unwrap();
    let e: Vec<_> = p.iter().filter_map(|e| e.err()).collect();
    assert!(e.iter().any(|e| e.to_string().contains("on fire")), "{:?}", e);
}
''')
seed("c23-two-buffers", "C23", "a line that is spread over more than two buffers of its reader",
  "the line is said to have no newline",
  [(PA, "    let _ = reader.read_until(b'\\n', &mut buf)?;\n", """    // lines are much shorter than buffers, two of them are enough
    for _ in 0..2 {
        let n = {
            let part = match reader.fill_buf() {
                Ok(part) => part,
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {
                    let _ = reader.read_until(b'\\n', &mut buf)?;
                    break;
                }
                Err(e) => return Err(e.into()),
            };
            let n = part.iter().position(|&c| c == b'\\n').map(|i| i + 1)
                .unwrap_or(part.len());
            buf.extend_from_slice(&part[..n]);
            n
        };
        reader.consume(n);
        if n == 0 || buf.ends_with(b"\\n") {
            break;
        }
    }
""")],
r'''
fn main() {
    let f = "a79eef66019bfb9a41f798f2cff2d2d36ed294cc3f96bf53bbfc5192ebe60192";
    let t = format!("DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  a s {}\n{}\n", "x".repeat(20000), f);
    let mut p = Parser::new(BufReader::new(Cursor::new(t.as_bytes()))).unwrap();
    assert_eq!(p.iter().map(|e| e.unwrap()).count(), 2);
}
''')
