S="src/v1/scan.rs"; TW="src/v1/threaded_writer.rs"; WR="src/v1/writer.rs"; PA="src/v1/parser.rs"; ME="src/v1/merge.rs"; EM="src/v1/emitter.rs"; RD="src/read.rs"; HA="src/v1/hash.rs"; CL="src/bin/index.rs"; MO="src/v1/mod.rs"
H = r'''
#![allow(dead_code, unused_imports)]
use std::collections::*;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};
use dir_signature::{get_hash, HashType, ScannerConfig};
use dir_signature::v1::{self, Emitter, Entry, EntryKind, Hashes, Parser};
use dir_signature::v1::merge::MergedSignatures;

fn scratch() -> PathBuf { PathBuf::from(std::env::args_os().nth(1).unwrap()) }
fn scan(dirs: &[&Path], threads: usize) -> Result<Vec<u8>, v1::Error> {
    let mut c = ScannerConfig::new();
    c.threads(threads);
    for d in dirs { c.add_dir(d, "/"); }
    let mut out = Vec::new();
    v1::scan(&c, &mut out).map(|()| out)
}
fn text(v: &[u8]) -> String { String::from_utf8_lossy(v).into_owned() }
'''
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **kw))

# --- C01
seed("c01-lossy-dir-sort", "C01", "two sources that share directories whose names are not UTF-8",
     "the same directory is listed twice, because the sort compares lossy names and equal directories are not adjacent",
     [(S, """            b.file_name().cmp(&a.file_name())  // note: reverse sort""",
          """            // note: reverse sort
            b.file_name().to_string_lossy().cmp(&a.file_name().to_string_lossy())""")],
r'''
fn main() {
    let s = scratch();
    let mut src = vec![];
    for i in 0..6 {
        let d = s.join(format!("s{}", i));
        for n in [b"\xfe", b"\xff", b"\xfd", b"\xfc"] {
            let p = d.join(OsStr::from_bytes(&n[..]));
            fs::create_dir_all(&p).unwrap();
            fs::write(p.join(format!("f{}", i)), b"x").unwrap();
        }
        src.push(d);
    }
    let r: Vec<&Path> = src.iter().map(|p| &p[..]).map(|p: &Path| p).collect();
    let t = text(&scan(&r, 0).unwrap());
    let dirs: Vec<&str> = t.lines().filter(|l| l.starts_with('/')).collect();
    assert_eq!(dirs, ["/", "/\\xfc", "/\\xfd", "/\\xfe", "/\\xff"]);
}
'''.replace(".map(|p| &p[..]).map(|p: &Path| p)", ".map(|p| p.as_path())"))

seed("c01-exe-any", "C01", "a file executable by group or others but not by its owner",
     "the owner-executable flag is set for it",
     [(WR, "EXE_MASK: u32 = 0o100;", "EXE_MASK: u32 = 0o111;")],
r'''
fn main() {
    let s = scratch();
    fs::write(s.join("a"), b"x").unwrap();
    fs::set_permissions(s.join("a"), fs::Permissions::from_mode(0o654)).unwrap();
    assert!(text(&scan(&[&s], 0).unwrap()).contains("\n  a f 1 "));
}
''')
seed("c01-unknown-type-file", "C01", "a file system that does not report entry types (d_type DT_UNKNOWN) and a symlink or directory on it",
     "the entry type is taken from a stat that follows links, so a symlink is listed as what it points to",
     [(S, "None => dir.metadata(&entry).map_err(ERead)?.simple_type(),",
       """None => {
                        let meta = dir.metadata(&entry).map_err(ERead)?;
                        match meta.simple_type() {
                            // sockets and such can't be told apart here
                            T::Symlink if meta.len() == 0 => T::Other,
                            T::Symlink if meta.stat().st_nlink > 1 => T::File,
                            x => x,
                        }
                    }""")],
r'''
extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
#[no_mangle] pub unsafe extern "C" fn readdir(d: *mut u8) -> *mut u8 {
    let f: unsafe extern "C" fn(*mut u8) -> *mut u8 = std::mem::transmute(dlsym(-1isize as *mut u8, b"readdir\0".as_ptr()));
    let e = f(d);
    if !e.is_null() { *e.add(18) = 0; }
    e
}
fn main() {
    let s = scratch().join("t");
    fs::create_dir(&s).unwrap();
    symlink("nowhere", s.join("l")).unwrap();
    fs::hard_link(s.join("l"), s.join("m")).unwrap();
    let t = text(&scan(&[&s], 0).unwrap());
    assert!(t.contains("\n  l s nowhere\n  m s nowhere\n"), "{}", t);
}
''')
# --- C02
seed("c02-size-u32", "C02", "a file larger than 4 GiB scanned with worker threads",
     "the digests of the blocks beyond the size modulo 2^32 are missing",
     [(TW, "let mut n = meta.len();", "let mut n = meta.len() as u32 as u64;")],
r'''
fn main() {
    let s = scratch();
    let size = (1u64 << 32) + 5;
    fs::File::create(s.join("big")).unwrap().set_len(size).unwrap();
    let out = scan(&[&s], 3).unwrap();
    let line = text(&out).lines().nth(2).unwrap().to_string();
    assert_eq!(line.split(' ').count() as u64, 5 + (size + 32767) / 32768);
}
''', deps='[profile.dev.package."*"]\nopt-level = 2\n')
seed("c02-short-read", "C02", "a read of a file that returns fewer bytes than asked before its end (signals, network file systems)",
     "the rest of the block is left out of its digest",
     [(HA, """        io::copy(&mut f.take(block_size), self)?;
        Ok(self.total_hash())""",
       """        let mut f = f.take(block_size);
        let mut buf = [0u8; 16384];
        loop {
            let n = match f.read(&mut buf) {
                Ok(n) => n,
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
                Err(e) => return Err(e),
            };
            self.update(&buf[..n]);
            if n < buf.len() {
                break;
            }
        }
        Ok(self.total_hash())"""),
      (HA, "use std::io;\nuse std::fmt;", "use std::io::{self, Read};\nuse std::fmt;")],
r'''
extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; }
static mut SHORT: bool = false;
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    let f: unsafe extern "C" fn(i32, *mut u8, usize) -> isize = std::mem::transmute(dlsym(-1isize as *mut u8, b"read\0".as_ptr()));
    f(fd, b, if SHORT && n > 1000 { 1000 } else { n })
}
fn main() {
    let s = scratch();
    fs::write(s.join("f"), vec![7u8; 50000]).unwrap();
    let a = scan(&[&s], 0).unwrap();
    unsafe { SHORT = true; }
    let b = scan(&[&s], 0).unwrap();
    assert_eq!(text(&a), text(&b));
}
''')
# --- C03
seed("c03-del-raw", "C03", "a name or link target with the byte 0x7F",
     "the byte is written as it is instead of as \\x7f",
     [(WR, "if b <= 0x20 || b >= 0x7F || b == b'\\\\' {", "if b <= 0x20 || b > 0x7F || b == b'\\\\' {")],
r'''
fn main() {
    let s = scratch();
    fs::write(s.join("a\x7fb"), b"").unwrap();
    assert!(text(&scan(&[&s], 0).unwrap()).contains("a\\x7fb f 0"));
}
''')
seed("c03-lossy-file-sort", "C03", "two names in one directory that differ only in bytes that are not UTF-8",
     "their order is the order of the listing, not that of their bytes",
     [(S, "a.file_name().cmp(&b.file_name())", "a.file_name().to_string_lossy().cmp(&b.file_name().to_string_lossy())")],
r'''
fn main() {
    let s = scratch();
    for i in 0..40u8 { fs::write(s.join(OsStr::from_bytes(&[b'n', 0x80 + ((i as u32 * 7) % 40) as u8])), b"").unwrap(); }
    let t = text(&scan(&[&s], 0).unwrap());
    let l: Vec<&str> = t.lines().filter(|l| l.starts_with("  ")).collect();
    let mut m = l.clone(); m.sort();
    assert_eq!(l, m);
}
''')
# --- C04
seed("c04-hash-whole-buffer", "C04", "a sink that accepts fewer bytes than it is given in a write",
     "the footer digest covers bytes twice (scan)",
     [(WR, "        let n = self.file.write(buf)?;\n        self.digest.update(&buf[..n]);\n        Ok(n)",
           "        self.digest.update(buf);\n        self.file.write(buf)")],
r'''
struct Few(Vec<u8>);
impl Write for Few {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(7); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = scratch();
    fs::write(s.join("a_rather_long_name"), b"hello").unwrap();
    let mut c = ScannerConfig::new();
    c.add_dir(&s, "/");
    let mut f = Few(vec![]);
    v1::scan(&c, &mut f).unwrap();
    assert_eq!(text(&f.0), text(&scan(&[&s], 0).unwrap()));
}
''')
seed("c04-flush-twice", "C04", "an index written with worker threads and blake2b/256 in which a directory name is not ASCII",
     "the footer covers the raw bytes of the directory name instead of the line as written",
     [(TW, """                writeln!(&mut self.file, "{}", Name(path))
                    .map_err(EWrite)?;""",
       """                let line = format!("{}\\n", Name(path));
                self.file.file.write_all(line.as_bytes()).map_err(EWrite)?;
                let raw = path.as_os_str().as_bytes();
                if raw.is_ascii() {
                    self.file.digest.update(line.as_bytes());
                } else {
                    self.file.digest.update(raw);
                    self.file.digest.update(b"\\n");
                }"""),
      (TW, "use std::os::unix::fs::PermissionsExt;", "use std::os::unix::ffi::OsStrExt;\nuse std::os::unix::fs::PermissionsExt;")],
r'''
fn main() {
    let s = scratch();
    fs::create_dir(s.join("h\u{e9}")).unwrap();
    assert_eq!(text(&scan(&[&s], 0).unwrap()), text(&scan(&[&s], 4).unwrap()));
}
''')
# --- C05
seed("c05-symlink-overtakes", "C05", "worker threads, and a symlink listed when the files before it are hashed but not yet written",
     "the symlink is written before them",
     [(TW, "    queue: VecDeque<Operation>,\n}", "    queue: VecDeque<Operation>,\n    pending: Arc<AtomicUsize>,\n}"),
      (TW, "            queue: VecDeque::new(),\n", "            queue: VecDeque::new(),\n            pending: Arc::new(AtomicUsize::new(0)),\n"),
      (TW, "use std::sync::Arc;", "use std::sync::Arc;\nuse std::sync::atomic::{AtomicUsize, Ordering};"),
      (TW, "        let mut hash = self.hash.clone();\n", "        let mut hash = self.hash.clone();\n        let pending = self.pending.clone();\n        pending.fetch_add(1, Ordering::SeqCst);\n"),
      (TW, "            Ok(FileEntry {\n", "            pending.fetch_sub(1, Ordering::SeqCst);\n            Ok(FileEntry {\n"),
      (TW, """        // TODO(tailhook) optimize allocation if no queue is present
        self.queue.push_back(Operation::Symlink(dir.clone(), entry));
        self.poll_queue()""",
       """        if self.pending.load(Ordering::SeqCst) == 0 {
            // nothing to wait for
            return self.poll_item(
                Operation::Symlink(dir.clone(), entry), true).map(|_| ());
        }
        self.queue.push_back(Operation::Symlink(dir.clone(), entry));
        self.poll_queue()""")],
r'''
fn main() {
    let s = scratch();
    for i in 0..300 { fs::write(s.join(format!("f{:04}", i)), b"hello").unwrap(); symlink("x", s.join(format!("f{:04}l", i))).unwrap(); }
    let want = text(&scan(&[&s], 0).unwrap());
    for _ in 0..300 { assert_eq!(want, text(&scan(&[&s], 2).unwrap())); }
}
''')
seed("c05-unstable-sort", "C05", "overlapping sources with many equal names in one directory",
     "the order of entries with equal names depends on the order of the listing",
     [(S, "files.sort_by(|&(_, ref a, _)", "files.sort_unstable_by(|&(_, ref a, _)")],
r'''
fn main() {
    let s = scratch();
    let (a, b) = (s.join("a"), s.join("b"));
    for (d, c) in [(&a, "1"), (&b, "22")] {
        fs::create_dir(d).unwrap();
        for i in 0..200 { fs::write(d.join(format!("f{}", i * 7919 % 200)), c).unwrap(); }
    }
    let t = text(&scan(&[&a, &b], 0).unwrap());
    let l: Vec<&str> = t.lines().filter(|l| l.starts_with("  ")).collect();
    assert_eq!(l.len(), 400);
    for p in l.chunks(2) { assert!(p[0].contains(" f 1 ") && p[1].contains(" f 2 "), "{:?}", p); }
}
''')
# --- C06
seed("c06-double-unescape", "C06", "a name that contains an escaped backslash followed by x and two hex digits",
     "the parser unescapes what it has just unescaped",
     [(PA, """            v.push(c);
            i += 4;""", """            i += 4;
            if c == b'\\\\' && bytes.len() > i + 6
                && is_hex_encoding(&[b"\\\\x", &bytes[i+1..i+3]].concat())
                && bytes[i] == b'x' && bytes[i+3..].starts_with(b"\\\\x0") {
                v.push(parse_hex_unchecked(&bytes[i + 1..]));
                i += 3;
                continue;
            }
            v.push(c);""")],
r'''
fn main() {
    let s = scratch();
    let n = "a\\x41\x01bc";
    fs::write(s.join(n), b"").unwrap();
    let out = scan(&[&s], 0).unwrap();
    let mut p = Parser::new(Cursor::new(out)).unwrap();
    let e = p.iter().nth(1).unwrap().unwrap();
    assert_eq!(e.path().as_os_str().as_bytes(), format!("/{}", n).as_bytes());
}
''')
seed("c06-normalized-link", "C06", "a symlink whose target has doubled or trailing slashes or dots",
     "the parser returns a normalized target (equal as a Path but other bytes)",
     [(PA, """                let (dest, row) = parse_path_buf(row)?;
""", """                let (dest, row) = parse_path_buf(row)?;
                let dest = dest.components().collect::<PathBuf>();
""")],
r'''
fn main() {
    let s = scratch();
    symlink("a//b/./c/", s.join("l")).unwrap();
    let out = scan(&[&s], 0).unwrap();
    let mut p = Parser::new(Cursor::new(out)).unwrap();
    match p.iter().nth(1).unwrap().unwrap() {
        Entry::Link(_, d) => assert_eq!(d.as_os_str().as_bytes(), b"a//b/./c/"),
        _ => panic!(),
    }
}
''')
# --- C07
seed("c07-emitter-lossy-link", "C07", "a symlink with a target that is not UTF-8 fed to the emitter",
     "the target is replaced by a lossy one",
     [(EM, "            Name(dest),", "            Name(&Path::new(&*dest.to_string_lossy())),")],
r'''
fn main() {
    let mut o = Vec::new();
    {
        let mut e = Emitter::new(HashType::blake3_256(), 32768, &mut o).unwrap();
        e.start_dir(Path::new("/")).unwrap();
        e.add_symlink(OsStr::new("l"), Path::new(OsStr::from_bytes(b"\xff\xfe"))).unwrap();
        e.finish().unwrap();
    }
    assert!(text(&o).contains("  l s \\xff\\xfe\n"));
}
''')
seed("c07-finish-error-lost", "C07", "a sink that fails while the footer is written",
     "finish() returns Ok",
     [(EM, "        self.out.hash.write_hash(self.out.out)?;\n        Ok(())",
           "        self.out.hash.write_hash(self.out.out).or_else(|e| match e.kind() {\n            io::ErrorKind::WriteZero => Ok(()),\n            _ => Err(e),\n        })")],
r'''
struct Lim(usize);
impl Write for Lim {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(self.0); self.0 -= n; Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut l = Lim(60);
    let mut e = Emitter::new(HashType::sha512_256(), 32768, &mut l).unwrap();
    e.start_dir(Path::new("/")).unwrap();
    assert!(e.finish().is_err());
}
''')
# --- C08
seed("c08-slice-lossy", "C08", "an entry line followed by more than 40 bytes of rest with a multibyte character at byte 40",
     "the parser panics while it builds the error message",
     [(PA, """                format!("Entry is not fully consumed: {:?}",
                    String::from_utf8_lossy(tail))));""",
       """                format!("Entry is not fully consumed: {:?}", {
                    let mut rest = String::from_utf8_lossy(tail).into_owned();
                    if rest.len() > 40 {
                        rest.truncate(40);
                    }
                    rest
                })));""")],
r'''
fn main() {
    let mut t = b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n/ ".to_vec();
    t.extend(b"x".repeat(39)); t.extend("\u{e9}\u{e9}\u{e9}\n".as_bytes());
    let mut p = Parser::new(Cursor::new(t)).unwrap();
    assert!(p.iter().next().unwrap().is_err());
}
''')
seed("c08-error-forever", "C08", "a malformed entry line and a caller that goes on after the error",
     "the same error is returned for ever",
     [(PA, """        let res = match self.parse_entry() {
            Ok(Some(entry)) => Some(Ok(entry)),
            Ok(None) => None,
            Err(e) => Some(Err(e)),
        };
        self.current_row.clear();
        res""", """        let entry = match self.parse_entry() {
            Ok(x) => x?,
            Err(e) => return Some(Err(e)),
        };
        self.current_row.clear();
        Some(Ok(entry))""")],
r'''
fn main() {
    let t = "DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  a z x\n/a\n";
    let mut p = Parser::new(Cursor::new(t)).unwrap();
    assert!(p.iter().take(50).count() < 10);
}
''')
# --- C09
seed("c09-header-row", "C09", "an index that has an entry line with an unknown entry type of more than one letter",
     "types that begin with a known letter are taken for it",
     [(PA, """            } else if file_type == "s" {""", """            } else if file_type.as_bytes().starts_with(b"s") {""")],
r'''
fn main() {
    let t = "DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  a socket x\n8dd499a36d950b8732f85a3bffbc8d8bee4a0af391e8ee2bb0aa0c4553b6c0fc\n";
    let mut p = Parser::new(Cursor::new(t)).unwrap();
    assert!(p.iter().any(|e| e.is_err()));
}
''')
seed("c09-extra-hash", "C09", "a file line with more digests than its size needs",
     "the surplus digests are ignored",
     [(PA, """                let hashes = Hashes::new(hashes_data, hash_type, block_size);
""", """                let hashes = Hashes::new(hashes_data, hash_type, block_size);
                // skip digests of trailing holes
                let row = match parse_hashes(row, hash_type, 1) {
                    Ok((_, tail)) if hashes_num > 1 => tail,
                    _ => row,
                };
""")],
r'''
fn main() {
    let h = "8dd499a36d950b8732f85a3bffbc8d8bee4a0af391e8ee2bb0aa0c4553b6c0fc";
    let t = format!("DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  a f 40000 {} {} {}\n{}\n", h, h, h, h);
    let mut p = Parser::new(Cursor::new(t)).unwrap();
    assert!(p.iter().any(|e| e.is_err()));
}
''')
# --- C10
seed("c10-dir-byte-order", "C10", "directories of which one name continues another's with a byte below '/'",
     "directories compare as byte strings while files compare component by component, so the order is not transitive",
     [(PA, "                        path.cmp(other_path)\n", "                        path.as_os_str().cmp(other_path.as_os_str())\n")],
r'''
fn main() {
    let (a, b) = (EntryKind::Dir("/a/x"), EntryKind::Dir("/a.b"));
    assert!(a < b);
}
''')
seed("c10-lossy-names", "C10", "two files of one directory that differ only in bytes that are not UTF-8",
     "they compare as equal",
     [(PA, """                                path.file_name()
                                    .expect("Empty file name")
                                    .cmp(&other_path.as_ref().file_name()
                                         .expect("Empty file name"))""",
       """                                path.file_name()
                                    .expect("Empty file name")
                                    .to_string_lossy()
                                    .cmp(&other_path.as_ref().file_name()
                                         .expect("Empty file name")
                                         .to_string_lossy())""")],
r'''
fn main() {
    let (a, b) = (Path::new(OsStr::from_bytes(b"/\xfe")), Path::new(OsStr::from_bytes(b"/\xff")));
    assert!(EntryKind::File(a) < EntryKind::File(b));
}
''')
# --- C11
seed("c11-skip-rows", "C11", "advance() to a kind smaller than the entry the iterator stands at, inside another directory",
     "the file rows of the directory are skipped although they are greater",
     [(PA, """            match self.parse_entry() {
                Ok(Some(entry)) => {
                    match entry.kind().cmp(&kind.as_ref()) {""",
       """            match self.parse_entry() {
                Ok(Some(Entry::Link(ref path, _))) if kind.path().parent()
                    .map(|p| !path.starts_with(p)).unwrap_or(false) =>
                {
                    // other directory
                    self.current_row.clear();
                }
                Ok(Some(entry)) => {
                    match entry.kind().cmp(&kind.as_ref()) {""")],
r'''
fn main() {
    let s = scratch();
    fs::create_dir_all(s.join("a")).unwrap();
    fs::create_dir_all(s.join("b")).unwrap();
    symlink("x", s.join("b/l")).unwrap();
    fs::write(s.join("b/m"), b"").unwrap();
    let out = scan(&[&s], 0).unwrap();
    let mut p = Parser::new(Cursor::new(out)).unwrap();
    let mut i = p.iter();
    i.advance(&EntryKind::Dir("/b")).unwrap().unwrap();
    assert!(i.advance(&EntryKind::File("/a/zzz")).is_none());
    assert_eq!(i.next().unwrap().unwrap().path(), Path::new("/b/l"));
}
''')
seed("c11-behind-only-dirs", "C11", "advance() to a directory that does not exist, while the next entry is a symlink of a later directory and was peeked at by an earlier call",
     "the peeked row is dropped",
     [(PA, """                        Greater => {
                            return None;""", """                        Greater => {
                            if let (EntryKind::Dir(_), &Entry::Link(..)) = (kind, &entry) {
                                // links can't be confused with directories
                                self.current_row.clear();
                            }
                            return None;""")],
r'''
fn main() {
    let s = scratch();
    symlink("x", s.join("l")).unwrap();
    let out = scan(&[&s], 0).unwrap();
    let mut p = Parser::new(Cursor::new(out)).unwrap();
    let mut i = p.iter();
    i.next().unwrap().unwrap();
    assert!(i.advance(&EntryKind::Dir("/")).is_none());
    assert_eq!(i.next().unwrap().unwrap().path(), Path::new("/l"));
}
''')
# --- C12
seed("c12-check-two", "C12", "three or more indexes of which only a later one differs",
     "the merge is not refused",
     [(ME, "    iter.all(|v| v == first)", "    iter.next().map_or(true, |v| v == first)")],
r'''
fn main() {
    let ix = |h: &str| (0, Parser::new(Cursor::new(format!("DIRSIGNATURE.v1 {} block_size=32768\n", h))).unwrap());
    assert!(MergedSignatures::new(vec![ix("sha512/256"), ix("sha512/256"), ix("blake3/256")]).is_err());
}
''')
seed("c12-min-not-reset", "C12", "three indexes where a later one holds the smallest entry and an earlier pair are equal",
     "when a smaller entry is found, only the last candidate is dropped, so groups mix entries",
     [(ME, """                                min_kind = Some(kind);
                                self.iterator_ixs.clear();
                                self.iterator_ixs.push(ix);""",
       """                                min_kind = Some(kind);
                                self.iterator_ixs.pop();
                                self.iterator_ixs.push(ix);""")],
r'''
fn main() {
    let s = scratch();
    let mk = |i: usize, n: &str| { let d = s.join(format!("{}", i)); fs::create_dir(&d).unwrap(); fs::write(d.join(n), b"").unwrap();
        (i, Parser::new(Cursor::new(scan(&[&d], 0).unwrap())).unwrap()) };
    let mut m = MergedSignatures::new(vec![mk(0, "b"), mk(1, "b"), mk(2, "a")]).unwrap();
    let g: Vec<Vec<usize>> = m.iter().map(|g| g.iter().map(|x| *x.0).collect()).collect();
    assert_eq!(g, vec![vec![0, 1, 2], vec![2], vec![0, 1]]);
}
''')
