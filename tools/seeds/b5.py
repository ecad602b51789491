exec(open("/verif/tools/seeds/pre.py").read())
CPU = r'''
fn cpu(f: &mut dyn FnMut()) -> f64 {
    let mut best = f64::MAX;
    for _ in 0..3 {
        let t = std::time::Instant::now();
        f();
        best = best.min(t.elapsed().as_secs_f64());
    }
    best
}
'''
seed("c29-insert-sorted", "C29", "a directory of many thousand entries",
  "entries are inserted one by one into a sorted list, the work grows with the square of the directory",
  [(S, """                    T::Symlink => files.push((dir.clone(), entry, true)),
                    T::File => files.push((dir.clone(), entry, false)),""",
"""                    T::Symlink | T::File => {
                        // keep the list sorted, equal names in order
                        let link = typ == T::Symlink;
                        let pos = files.iter().rposition(
                            |&(_, ref e, _): &(Arc<Dir>, openat::Entry, bool)| {
                                e.file_name() <= entry.file_name()
                            }).map_or(0, |p| p + 1);
                        files.insert(pos, (dir.clone(), entry, link));
                    }"""),
   (S, """        files.sort_by(|&(_, ref a, _), &(_, ref b, _)| {
            a.file_name().cmp(&b.file_name())
        });
""", "")], CPU + r'''
fn main() {
    let s = scratch();
    let (a, b) = (s.join("a"), s.join("b"));
    for (d, n) in [(&a, 3000), (&b, 48000)] { fs::create_dir(d).unwrap(); for i in 0..n { fs::write(d.join(format!("{:x}", (i as u64).wrapping_mul(0x9e3779b97f4a7c15))), b"").unwrap(); } }
    let x = cpu(&mut || { scan(&[&a], 0).unwrap(); });
    let y = cpu(&mut || { scan(&[&b], 0).unwrap(); });
    assert!(y < 60.0 * x, "{} {}", x, y);
}
''')
seed("c29-seen-dirs", "C29", "a tree of many thousand directories, scanned",
  "every directory is looked up in a list of all those that wait",
  [(S, """            // TODO(tailhook) deduplicate! (kinda)
            queue.push_front((""", """            // TODO(tailhook) deduplicate! (kinda)
            if queue.iter().any(|&(ref p, _)| *p == dirpath) {
                continue;
            }
            queue.push_front((""")], CPU + r'''
fn main() {
    let s = scratch();
    let (a, b) = (s.join("a"), s.join("b"));
    for (d, n) in [(&a, 500), (&b, 8000)] { fs::create_dir(d).unwrap(); for i in 0..n { fs::create_dir(d.join(format!("{}", i))).unwrap(); } }
    let x = cpu(&mut || { scan(&[&a], 0).unwrap(); });
    let y = cpu(&mut || { scan(&[&b], 0).unwrap(); });
    assert!(y < 50.0 * x, "{} {}", x, y);
}
''')
seed("c29-unescape-remove", "C29", "a name or path of many thousand bytes with many escapes",
  "escapes are replaced in place, moving the rest of the name each time",
  [(PA, """    let mut v: Vec<u8> = vec!();
    let bytes = s.as_bytes();
    v.extend_from_slice(&bytes[..i]);
    while i < bytes.len() {
        if is_hex_encoding(&bytes[i..]) {
            let c = parse_hex_unchecked(&bytes[i + 2..]);
            v.push(c);
            i += 4;
        } else {
            v.push(bytes[i]);
            i += 1;
        }
    }
    Cow::Owned(OsString::from_vec(v))""", """    let mut v = s.as_bytes().to_vec();
    while i < v.len() {
        if is_hex_encoding(&v[i..]) {
            v[i] = parse_hex_unchecked(&v[i + 2..]);
            v.drain(i + 1..i + 4);
        }
        i += 1;
    }
    Cow::Owned(OsString::from_vec(v))""")], CPU + r'''
fn main() {
    let t = |n: usize| format!("DIRSIGNATURE.v1 sha512/256 block_size=1\n/{}\n{}\n", "\\x20".repeat(n), "0".repeat(64));
    let go = |t: &str| { let mut p = Parser::new(Cursor::new(t)).unwrap(); assert_eq!(p.iter().filter(|e| e.is_ok()).count(), 1); };
    let (a, b) = (t(20_000), t(400_000));
    let x = cpu(&mut || go(&a));
    let y = cpu(&mut || go(&b));
    assert!(y < 80.0 * x, "{} {}", x, y);
}
''')
seed("c29-hash-count", "C29", "a file of many thousand blocks in an index that is parsed",
  "the list of digests is walked again for each of them",
  [(PA, """        for d in hash.chunks(2) {
            buf.push(parse_hex(d)?);
        }
        data = tail;
        i += 1;""", """        for d in hash.chunks(2) {
            buf.push(parse_hex(d)?);
        }
        data = tail;
        i = buf.chunks(digest_len).filter(|d| d.len() == digest_len).count();""")], CPU + r'''
fn main() {
    let t = |n: usize| format!("DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  f f {}{}\n{}\n", n, format!(" {}", "0".repeat(64)).repeat(n), "0".repeat(64));
    let go = |t: &str| { let mut p = Parser::new(Cursor::new(t)).unwrap(); assert_eq!(p.iter().filter(|e| e.is_ok()).count(), 2); };
    let (a, b) = (t(500), t(8_000));
    let x = cpu(&mut || go(&a));
    let y = cpu(&mut || go(&b));
    assert!(y < 60.0 * x, "{} {}", x, y);
}
''')
seed("c29-identifier-reads-all", "C29", "the identifier of a large index",
  "the whole index is read for its last line",
  [(RD, "    f.seek(SeekFrom::End(- (nbytes as i64)))?;\n", """    // the end is reached by reading, so we know where it is
    let mut at = f.seek(SeekFrom::Current(0))?;
    let mut skip = [0u8; 512];
    loop {
        let n = read_full(f, &mut skip)?;
        at += n as u64;
        if n < skip.len() {
            break;
        }
    }
    let start = at.checked_sub(nbytes as u64).ok_or(einval)?;
    f.seek(SeekFrom::Start(start))?;
""")], r'''
struct C { c: Cursor<Vec<u8>>, n: usize }
impl Read for C { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = self.c.read(b)?; self.n += n; Ok(n) } }
impl Seek for C { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.c.seek(p) } }
fn main() {
    let t = format!("DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n{}{}\n", "  f f 0\n".repeat(50_000), "0".repeat(64));
    let mut c = C { c: Cursor::new(t.into_bytes()), n: 0 };
    assert_eq!(get_hash(&mut c).unwrap(), vec![0; 32]);
    assert!(c.n < 10_000, "{}", c.n);
}
''')
seed("c29-reopen-queued", "C29", "worker threads, and many files",
  "files are opened (and inspected) once before they are queued and once by the worker",
  [(TW, """        use std::fmt::Write;
        let dir = dir.clone();
        let block_size = self.block_size;""", """        use std::fmt::Write;
        // fail early
        dir.open_file(&entry).and_then(|f| f.metadata()).map_err(EFile)?;
        let dir = dir.clone();
        let block_size = self.block_size;""")], r'''
extern "C" { fn inotify_init() -> i32; fn inotify_add_watch(fd: i32, p: *const u8, m: u32) -> i32; }
fn main() {
    use std::os::unix::io::FromRawFd;
    let s = scratch();
    fs::write(s.join("a"), b"x").unwrap();
    let mut p = s.join("a").as_os_str().as_bytes().to_vec();
    p.push(0);
    // opens and closes are counted by inotify
    let mut f = unsafe { let i = inotify_init(); assert!(inotify_add_watch(i, p.as_ptr(), 0x30) > 0); fs::File::from_raw_fd(i) };
    scan(&[&s], 2).unwrap();
    std::thread::sleep(std::time::Duration::from_millis(200));
    let mut e = Vec::new();
    e.resize(65536, 0);
    let n = f.read(&mut e).unwrap() / 16;
    println!("{}", n);
    assert_eq!(n, 2);
}
''')
seed("c29-merge-clone", "C29", "a merge in which one index has most of the entries",
  "for every group all entries of the group's index that were seen before are kept and copied",
  [(ME, "struct PeekableEntryIterator<'a, R: BufRead> {\n", "struct PeekableEntryIterator<'a, R: BufRead> {\n    seen: Vec<usize>,\n"),
   (ME, "        PeekableEntryIterator {\n            head: None,", "        PeekableEntryIterator {\n            seen: Vec::new(),\n            head: None,"),
   (ME, """            self.head = self.tail.next();
        }""", """            self.head = self.tail.next();
            if let Some(Ok(ref e)) = self.head {
                // lengths of the paths so far, the longest first
                self.seen.push(e.path().as_os_str().len());
                self.seen.sort_by(|a, b| b.cmp(a));
            }
        }""")], CPU + r'''
fn main() {
    let t = |n: usize| { let mut t = "DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n".to_string(); for i in 0..n { t.push_str(&format!("  f{:07} f 0\n", i)); } t.push_str(&"0".repeat(64)); t.push('\n'); t };
    let go = |t: &str| { let mut m = MergedSignatures::new(vec![(0, Parser::new(Cursor::new(t)).unwrap())]).unwrap(); assert!(m.iter().count() > 2); };
    let (a, b) = (t(4000), t(64_000));
    let x = cpu(&mut || go(&a));
    let y = cpu(&mut || go(&b));
    assert!(y < 60.0 * x, "{} {}", x, y);
}
''')
