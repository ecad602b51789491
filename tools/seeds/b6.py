exec(open("/verif/tools/seeds/pre.py").read())
seed("c25-sh-find-sort", "C25", "sibling directories of which one name continues the other's with a byte below the slash, and a child",
  "hash.sh sorts directories by their whole path instead of name by name",
  [("hash.sh", "find ./ -type d | tr '/' '\\0' | LC_ALL=C sort | tr '\\0' '/' | while", "find ./ -type d | LC_ALL=C sort | while")], r'''
fn main() {
    let s = scratch();
    for d in ["a", "a/b", "a-b"] { fs::create_dir(s.join(d)).unwrap(); }
    let want = scan(&[&s], 0).unwrap();
    let o = std::process::Command::new("bash").args(["-e", "hash.sh"]).arg(&s).env("HASH_CMD", "openssl dgst -sha512-256 -r").output().unwrap();
    assert_eq!(text(&o.stdout), text(&want));
}
''')
seed("c25-sh-last-block", "C25", "a file whose size is a multiple of the block size",
  "hash.sh hashes an empty block after the last full one",
  [("hash.sh", "for ((i = 0; i < size; i += BLOCK_SIZE)); do", "for ((i = 0; i < size + (size % BLOCK_SIZE == 0 && size > 0); i += BLOCK_SIZE)); do")], r'''
fn main() {
    let s = scratch();
    fs::write(s.join("a"), vec![1; 65536]).unwrap();
    let want = scan(&[&s], 0).unwrap();
    let o = std::process::Command::new("bash").args(["-e", "hash.sh"]).arg(&s).env("HASH_CMD", "openssl dgst -sha512-256 -r").output().unwrap();
    assert_eq!(text(&o.stdout), text(&want));
}
''')
seed("c10-parent-shortcut", "C10", "a directory and a file in a directory whose path continues that directory's",
  "a file below a directory is compared by the start of the path's bytes, so a directory is put before the files of its parent",
  [(PA, """                        match path.cmp(other_parent.as_ref()) {
                            Less | Equal => Less,
                            Greater => Greater,
                        }""", """                        if other_path.as_os_str().as_bytes()
                            .starts_with(path.as_os_str().as_bytes())
                        {
                            // a file somewhere below
                            return Less;
                        }
                        match path.cmp(other_parent.as_ref()) {
                            Less | Equal => Less,
                            Greater => Greater,
                        }""")], r'''
fn main() {
    assert!(EntryKind::Dir("/a") < EntryKind::File("/a/x"));
    assert!(EntryKind::File("/ab") < EntryKind::Dir("/a"));
    assert!(EntryKind::Dir("/a") > EntryKind::File("/ab"));
}
''')
seed("c11-miss-consumes", "C11", "advance() to what is behind, when the next entry is a file in a directory of the same parent as the wanted one",
  "a miss takes the entry it stopped at away if that is a directory",
  [(PA, """                        Greater => {
                            return None;
                        },
                        Equal => {
                            self.current_row.clear();
                            return Some(Ok(entry));""", """                        Greater => {
                            if let Entry::Dir(_) = entry {
                                // its path is noted already
                                self.current_row.clear();
                            }
                            return None;
                        },
                        Equal => {
                            self.current_row.clear();
                            return Some(Ok(entry));""")], r'''
fn main() {
    let t = format!("DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n  a f 0\n/b\n  y f 0\n{}\n", "0".repeat(64));
    let mut p = Parser::new(Cursor::new(t)).unwrap();
    let mut it = p.iter();
    assert!(it.advance(&EntryKind::File("/z")).is_none());
    assert_eq!(it.next().unwrap().unwrap().path(), Path::new("/b"));
}
''')
seed("c12-group-order", "C12", "three indexes of which the last has a smaller entry than the first two, which then come again",
  "an index whose entry was greater in one round is left out of the following group",
  [(ME, """        self.iterator_ixs.clear();
        {
            let mut min_kind = None;""", """        let former = std::mem::replace(&mut self.iterator_ixs, Vec::new());
        {
            let mut min_kind = None;"""),
   (ME, """            if let Some(entry) = iterator.next() {
                res.push((key, entry));
            }
        }
""", """            if let Some(entry) = iterator.next() {
                res.push((key, entry));
            }
        }
        if former.len() > 1 && res.len() == former.len() {
            // the indexes of the last group come first again
            let n = res.len();
            res.rotate_left((former[0] + n - self.iterator_ixs[0]) % n);
        }
""")], r'''
fn main() {
    let t = |v: &[&str]| format!("DIRSIGNATURE.v1 sha512/256 block_size=1\n/\n{}{}\n", v.iter().map(|n| format!("  {} f 0\n", n)).collect::<String>(), "0".repeat(64));
    let ps: Vec<_> = [t(&["a", "b"]), t(&["a", "c"]), t(&["b", "c"])].iter().cloned().enumerate().map(|(i, t)| (i, Parser::new(Cursor::new(t)).unwrap())).collect();
    let mut m = MergedSignatures::new(ps).unwrap();
    let v: Vec<Vec<usize>> = m.iter().map(|g| g.iter().map(|x| *x.0).collect()).collect();
    assert_eq!(v, [vec![0, 1, 2], vec![0, 1], vec![0, 2], vec![1, 2]]);
}
''')
seed("c14-last-full-block", "C14", "content of several blocks, read by a reader that ends a read inside a block",
  "a read that is shorter than the block ends the list",
  [(HA, """        let bytes = io::copy(&mut f.take(block_size), self)?;
        Ok((bytes, self.total_hash()))""", """        let mut f = f;
        let mut buf = [0u8; 4096];
        let mut bytes = 0;
        // block by block without the detour through io::copy
        while bytes < block_size {
            let want = (block_size - bytes).min(buf.len() as u64) as usize;
            let n = f.read(&mut buf[..want])?;
            self.update(&buf[..n]);
            bytes += n as u64;
            if n < want {
                break;
            }
        }
        Ok((bytes, self.total_hash()))""")], r'''
struct One<'a>(&'a [u8]);
impl<'a> Read for One<'a> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(3000); self.0.read(&mut b[..n]) } }
fn main() {
    let d = vec![7; 100_000];
    let (n, h) = Hashes::hash_file(HashType::sha512_256(), 32768, One(&d)).unwrap();
    assert_eq!((n, h.len()), (100_000, 4));
}
''')
seed("c04-emitter-empty-write", "C04", "an emitter whose sink accepts only a part of a line that ends in a multibyte escape",
  "the digest of the emitter takes the bytes before the sink has accepted them, again for each try",
  [(EM, """        let n = self.out.write(buf)?;
        self.hash.input(&buf[..n]);
        Ok(n)""", """        // hash while the buffer is hot
        self.hash.input(buf);
        self.out.write_all(buf)?;
        Ok(buf.len())"""),
   (EM, """    pub fn start_dir(&mut self, path: &Path) -> io::Result<()> {
        writeln!(self.out, "{}", Name(path))?;
        Ok(())""", """    pub fn start_dir(&mut self, path: &Path) -> io::Result<()> {
        if let Err(e) = writeln!(self.out, "{}", Name(path)) {
            if e.kind() != io::ErrorKind::WouldBlock {
                return Err(e);
            }
            // once more
            writeln!(self.out, "{}", Name(path))?;
        }
        Ok(())""")], r'''
struct W { v: Vec<u8>, n: bool }
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if !self.n && self.v.ends_with(b"\n/\n") { self.n = true; return Err(io::ErrorKind::WouldBlock.into()); } self.v.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut failed = false;
    let mut w = W { v: vec![], n: false };
    {
        let mut e = Emitter::new(HashType::sha512_256(), 1, &mut w).unwrap();
        failed |= e.start_dir(Path::new("/")).is_err();
        failed |= e.start_dir(Path::new("/a")).is_err();
    }
    assert!(failed, "{}", text(&w.v));
}
''')
seed("c26-dirs-cache", "C26", "two scans in one process, of which the second has a source that was exchanged after the first",
  "sources that were opened once stay open and are scanned again although another directory is there now",
  [(S, """fn find_roots(config: &ScannerConfig)""", """thread_local! {
    static OPEN: std::cell::RefCell<Vec<(PathBuf, Arc<Dir>)>> =
        std::cell::RefCell::new(Vec::new());
}

/// Opens a source, reusing the descriptor of the scan before
fn open_root(path: &Path) -> std::io::Result<Arc<Dir>> {
    OPEN.with(|open| {
        let mut open = open.borrow_mut();
        if let Some(&(_, ref dir)) = open.iter().find(|x| x.0 == path) {
            if path.exists() {
                return Ok(dir.clone());
            }
        }
        let dir = Arc::new(Dir::open(path)?);
        open.clear();
        open.push((path.to_path_buf(), dir.clone()));
        Ok(dir)
    })
}

fn find_roots(config: &ScannerConfig)"""), (S, "                Arc::new(Dir::open(path).map_err(EDir)?),", "                open_root(path).map_err(EDir)?,")], r'''
fn main() {
    let s = scratch();
    let d = s.join("d");
    fs::create_dir(&d).unwrap();
    fs::write(d.join("a"), b"").unwrap();
    scan(&[&d], 0).unwrap();
    fs::rename(&d, s.join("old")).unwrap();
    fs::create_dir(&d).unwrap();
    fs::write(d.join("b"), b"").unwrap();
    assert!(text(&scan(&[&d], 0).unwrap()).contains("  b f 0"));
}
''')
seed("c27-mtime-newest", "C27", "a source given twice or two sources with the same file, one newer than the other",
  "equal files of several sources are written in the order of their times instead of the order of the sources",
  [(S, """            a.file_name().cmp(&b.file_name())
        });
        index""", """            a.file_name().cmp(&b.file_name())
        });
        // of equal names the oldest first, it is the original
        let mut i = 0;
        while i + 1 < files.len() {
            let age = |x: &(Arc<Dir>, openat::Entry, bool)| {
                x.0.metadata(&x.1).map(|m| {
                    (m.stat().st_mtime, m.stat().st_mtime_nsec)
                }).map_err(ERead)
            };
            if files[i].1.file_name() == files[i + 1].1.file_name()
                && age(&files[i])? > age(&files[i + 1])?
            {
                files.swap(i, i + 1);
            }
            i += 1;
        }
        index""")], r'''
extern "C" { fn utimes(p: *const u8, t: *const [i64; 4]) -> i32; }
fn main() {
    let s = scratch();
    let (a, b) = (s.join("a"), s.join("b"));
    for (d, t) in [(&a, "one"), (&b, "other")] { fs::create_dir(d).unwrap(); fs::write(d.join("f"), t).unwrap(); }
    let age = |d: &Path, n: i64| { let mut p = d.join("f").as_os_str().as_bytes().to_vec(); p.push(0); unsafe { utimes(p.as_ptr(), &[n, 0, n, 0]); } };
    age(&a, 1000); age(&b, 2000);
    let x = scan(&[&a, &b], 0).unwrap();
    age(&a, 3000);
    assert_eq!(text(&x), text(&scan(&[&a, &b], 0).unwrap()));
}
''')
seed("c28-check-prefix", "C28", "a file that has grown by whole blocks since it was indexed",
  "a file that continues the indexed content at a block border is taken for equal",
  [(PA, """                return Ok(false);
            }
        }
        at_eof(&mut f)""", """                return Ok(false);
            }
        }
        // the last block was shorter, so it was the end
        let mut rest = [0u8; 512];
        let mut n = 0;
        loop {
            match f.read(&mut rest) {
                Ok(0) => break,
                Ok(k) => n += k as u64,
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(self.len() > 0 && n > 0 && n % self.block_size == 0 || n == 0)""")], r'''
fn main() {
    let (_, h) = Hashes::hash_file(HashType::sha512_256(), 32768, &vec![1; 65536][..]).unwrap();
    assert!(!h.check_file(&vec![1; 98304][..]).unwrap());
}
''')
seed("c20-grown-size", "C20", "a file that grows between being inspected and being read, in worker threads",
  "the size is taken again after reading while the digests are those of the size before",
  [(TW, """                size: meta.len(),""", """                size: f.metadata().map_err(EFile)?.len(),""")], r'''
fn main() {
    let s = scratch();
    let p = s.join("a");
    let q = p.clone();
    for _ in 0..40 {
        fs::write(&p, vec![1; 300_000]).unwrap();
        let q = q.clone();
        let t = std::thread::spawn(move || { let mut f = fs::OpenOptions::new().append(true).open(&q).unwrap(); for _ in 0..2000 { f.write_all(&[2; 100]).unwrap(); } });
        let v = scan(&[&s], 2).unwrap();
        t.join().unwrap();
        let mut p = Parser::new(Cursor::new(v)).unwrap();
        for e in p.iter() { e.unwrap(); }
    }
}
''')
seed("c18-fallback-path", "C18", "a directory deeper than what is listed that is exchanged for a symlink at the moment it's opened",
  "a directory that cannot be opened in place is opened by its path, which follows links",
  [(S, "            let dir = Arc::new(base.sub_dir(&name).map_err(EList)?);", """            let dir = Arc::new(match base.sub_dir(&name) {
                Ok(dir) => dir,
                Err(e) => match base.recover_path() {
                    // may have been moved
                    Ok(p) => Dir::open(&p.join(&name)).map_err(EList)?,
                    Err(_) => return Err(EList(e)),
                },
            });""")], r'''
fn main() {
    let s = scratch();
    let (d, out) = (s.join("d"), s.join("out"));
    fs::create_dir(&d).unwrap();
    fs::create_dir(&out).unwrap();
    fs::write(out.join("secret"), b"x").unwrap();
    let sub = d.join("sub");
    let (a, b) = (sub.clone(), d.join("tmp"));
    symlink(&out, s.join("l")).unwrap();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let st = stop.clone();
    let l = out.clone();
    fs::create_dir(&sub).unwrap();
    for i in 0..300 { fs::write(d.join(format!("f{}", i)), b"").unwrap(); }
    let t = std::thread::spawn(move || while !st.load(std::sync::atomic::Ordering::SeqCst) {
        let _ = fs::remove_dir(&a); let _ = symlink(&l, &b); let _ = fs::rename(&b, &a); let _ = fs::remove_file(&a); let _ = fs::create_dir(&a);
    });
    let mut bad = false;
    for _ in 0..20_000 { if let Ok(v) = scan(&[&d], 0) { if text(&v).contains("secret") { bad = true; break; } } }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    t.join().unwrap();
    assert!(!bad);
}
''')
