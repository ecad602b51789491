exec(open("/verif/tools/seeds/pre.py").read())
CO="src/config.rs"; HT="src/hash_type.rs"; PR="src/v1/progress.rs"
IDX = r'''
fn hex(b: u8) -> String { format!("{:02x}", b).repeat(32) }
fn index(lines: &[String]) -> Vec<u8> { format!("DIRSIGNATURE.v1 sha512/256 block_size=32768\n{}{}\n", lines.concat(), hex(7)).into_bytes() }
'''
seed("c30-pool-one-less", "C30", "a scan with three threads or more",
 "one thread less hashes files than was asked for",
 [(TW, "pool: CpuPool::new(threads),", "// the scanning thread is one of them\n            pool: CpuPool::new(if threads > 2 { threads - 1 } else { threads }),")],
r'''
fn main() {
    let s = scratch();
    // files whose open takes long: count the threads while a scan runs
    for i in 0..40 { let f = fs::File::create(s.join(format!("f{}", i))).unwrap(); f.set_len(60 << 20).unwrap(); }
    let d = s.clone();
    let t = std::thread::spawn(move || { scan(&[&d], 4).unwrap(); });
    let mut most = 0;
    for _ in 0..400 { most = most.max(fs::read_dir("/proc/self/task").unwrap().count()); std::thread::sleep(std::time::Duration::from_millis(5)); if t.is_finished() { break; } }
    // the main thread, the scanning one and four workers
    assert_eq!(most, 6, "threads");
    t.join().unwrap();
}
''')
seed("c30-add-dir-once", "C30", "one directory added twice, or under two spellings",
 "a source is left out, so its files have one entry instead of two",
 [(CO, """        self.dirs.push((path.as_ref().to_path_buf(),
                        prefix.as_ref().to_path_buf()));
""", """        let dir = (path.as_ref().to_path_buf(),
                   prefix.as_ref().to_path_buf());
        if !self.dirs.contains(&dir) {
            self.dirs.push(dir);
        }
""")],
r'''
fn main() {
    let s = scratch();
    fs::write(s.join("a"), "x").unwrap();
    let t = text(&scan(&[&s, &s], 0).unwrap());
    assert_eq!(t.lines().count(), 5, "{}", t);
}
''')
seed("c30-threads-zero", "C30", "threads(0) after another number was set",
 "the scan uses threads although none are asked for",
 [(CO, "        self.threads = num;\n", "        // zero is the default\n        if num > 0 {\n            self.threads = num;\n        }\n")],
r'''
fn main() {
    let s = scratch();
    for i in 0..8 { let f = fs::File::create(s.join(format!("f{}", i))).unwrap(); f.set_len(60 << 20).unwrap(); }
    let d = s.clone();
    let t = std::thread::spawn(move || {
        let mut c = ScannerConfig::new();
        c.threads(3).threads(0).add_dir(&d, "/");
        v1::scan(&c, &mut Vec::new()).unwrap();
    });
    let mut most = 0;
    for _ in 0..400 { most = most.max(fs::read_dir("/proc/self/task").unwrap().count()); std::thread::sleep(std::time::Duration::from_millis(5)); if t.is_finished() { break; } }
    assert_eq!(most, 2, "threads");
    t.join().unwrap();
}
''')
seed("c30-name-case", "C30", "a name of a hash type in capitals",
 "names that aren't documented are accepted, in the header of an index too",
 [(HT, "        match val {\n", "        match &val.to_ascii_lowercase()[..] {\n")],
r'''
fn main() {
    assert!("SHA512/256".parse::<HashType>().is_err());
    assert!("sha512/256".parse::<HashType>().is_ok());
}
''')
seed("c11-recursive", "C11", "an index with very many entries before the one that is sought",
 "the stack overflows and the process dies",
 [(PA, """                        Less => {
                            self.current_row.clear();
                            continue;
                        },
                        Greater => {""", """                        Less => {
                            self.current_row.clear();
                            return self.advance(kind);
                        },
                        Greater => {""")],
IDX + r'''
fn main() {
    let mut l = vec!["/\n".to_string()];
    for i in 0..300000 { l.push(format!("  n{:07} s t\n", i)); }
    let t = index(&l);
    let mut p = Parser::new(&t[..]).unwrap();
    let mut it = p.iter();
    let e = it.advance(&EntryKind::File("/n0299999")).unwrap().unwrap();
    assert_eq!(e.path(), Path::new("/n0299999"));
}
''')
seed("c10-bytewise", "C10", "paths with doubled slashes or single dots",
 "kinds that are equal don't compare as equal",
 [(PA, """impl<P> Ord for EntryKind<P>
""", """/// The order of paths: a slash comes before any other character
fn compare(a: &Path, b: &Path) -> Ordering {
    let key = |&c: &u8| if c == b'/' { 0 } else { c };
    a.as_os_str().as_bytes().iter().map(key)
        .cmp(b.as_os_str().as_bytes().iter().map(key))
}

impl<P> Ord for EntryKind<P>
"""), (PA, "path.cmp(other_path)", "compare(path, other_path)"), (PA, "match path.cmp(other_parent.as_ref()) {", "match compare(path, other_parent) {"),
  (PA, "match parent.cmp(other_path) {", "match compare(parent, other_path) {"), (PA, "match parent.cmp(other_parent) {", "match compare(parent, other_parent) {")],
r'''
fn main() {
    use std::cmp::Ordering::*;
    let (a, b) = (EntryKind::File("/a//b"), EntryKind::File("/a/b"));
    let (a, b) = (EntryKind::File(Path::new("/a//c/b")), EntryKind::File(Path::new("/a/c/b")));
    assert_eq!(a == b, a.cmp(&b) == Equal);
    let (a, b) = (EntryKind::Dir(Path::new("/a/./b")), EntryKind::Dir(Path::new("/a/b")));
    assert_eq!(a == b, a.cmp(&b) == Equal);
}
''')
seed("c12-mask", "C12", "more than 64 indexes merged",
 "entries of the indexes beyond the 64th are lost or given out in a wrong group",
 [(ME, "    iterator_ixs: Vec<usize>,\n", "    iterator_ixs: u64,\n"),
  (ME, "        let n = merged_signatures.parsers.len();\n        MergedEntriesIterator {", "        MergedEntriesIterator {"),
  (ME, "            iterator_ixs: Vec::with_capacity(n)\n", "            iterator_ixs: 0,\n"),
  (ME, "        self.iterator_ixs.clear();\n        {", "        self.iterator_ixs = 0;\n        {"),
  (ME, """                                self.iterator_ixs.clear();
                                self.iterator_ixs.push(ix);
                            },
                            Some(Equal) => {
                                self.iterator_ixs.push(ix);
                            },""", """                                self.iterator_ixs = 1u64.rotate_left(ix as u32);
                            },
                            Some(Equal) => {
                                self.iterator_ixs |= 1u64.rotate_left(ix as u32);
                            },"""),
  (ME, """                                min_kind = Some(kind);
                                self.iterator_ixs.push(ix);
                            }
                        }""", """                                min_kind = Some(kind);
                                self.iterator_ixs |= 1u64.rotate_left(ix as u32);
                            }
                        }"""),
  (ME, """                    Some(&Err(_)) => {
                        self.iterator_ixs.push(ix);""", """                    Some(&Err(_)) => {
                        self.iterator_ixs |= 1u64.rotate_left(ix as u32);"""),
  (ME, """        for &ix in &self.iterator_ixs {
            let ref mut elem""", """        for ix in 0..self.iterators.len() {
            if self.iterator_ixs & 1u64.rotate_left(ix as u32) == 0 {
                continue;
            }
            let ref mut elem""")],
IDX + r'''
fn main() {
    let mut v = Vec::new();
    let ts: Vec<Vec<u8>> = (0..70).map(|i| index(&["/\n".to_string(), format!("  n{:03} s t\n", i)])).collect();
    for (i, t) in ts.iter().enumerate() { v.push((i, Parser::new(&t[..]).unwrap())); }
    let mut m = MergedSignatures::new(v).unwrap();
    let mut n = 0;
    for g in m.iter() { if n > 0 { assert_eq!(g.len(), 1, "group {}", n); assert_eq!(*g[0].0, n - 1); } else { assert_eq!(g.len(), 70); } n += 1; }
    assert_eq!(n, 71);
}
''')
seed("c14-block-u32", "C14", "a block size of 4 GiB or more",
 "content is hashed in blocks of another size, or not at all",
 [(HA, "        let bytes = io::copy(&mut f.take(block_size), self)?;\n", "        let limit = u64::from(block_size as u32);\n        let bytes = io::copy(&mut f.take(limit), self)?;\n")],
r'''
fn main() {
    let (n, h) = Hashes::hash_file(HashType::sha512_256(), (1 << 32) + 5, &b"hello world"[..]).unwrap();
    assert_eq!((n, h.len()), (11, 1));
}
''')
seed("c16-pipe", "C16", "a sink that fails with EPIPE",
 "the scan reports success although the index wasn't written",
 [(WR, """        let n = self.file.write(buf)?;
        self.digest.update(&buf[..n]);""", """        let n = match self.file.write(buf) {
            // the reader has seen enough
            Err(ref e) if e.kind() == io::ErrorKind::BrokenPipe => buf.len(),
            r => r?,
        };
        self.digest.update(&buf[..n]);""")],
r'''
struct P(usize);
impl Write for P {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.0 < b.len() { return Err(io::ErrorKind::BrokenPipe.into()); } self.0 -= b.len(); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
// fails only while lines are written
struct Once(usize);
impl Write for Once {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0 += 1; if self.0 == 9 { return Err(io::ErrorKind::BrokenPipe.into()); } Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = scratch();
    for i in 0..5 { fs::write(s.join(format!("{}", i)), "x").unwrap(); }
    let mut c = ScannerConfig::new();
    c.add_dir(&s, "/");
    assert!(v1::scan(&c, &mut P(100)).is_err());
    assert!(v1::scan(&c, &mut Once(0)).is_err());
}
''')
seed("c21-fresh-file", "C21", "an output that is a FIFO, a device or a symlink to another file",
 "the index isn't written to the given file, which is replaced",
 [(CL, "        let file = match File::create(&path) {\n", "        // never write into an index that is being read\n        std::fs::remove_file(&path).ok();\n        let file = match File::create(&path) {\n")],
r'''
fn main() {
    let s = scratch();
    let (d, o) = (s.join("d"), s.join("o"));
    fs::create_dir(&d).unwrap(); fs::create_dir(&o).unwrap();
    fs::write(d.join("a"), "x").unwrap();
    fs::write(o.join("real"), "old").unwrap();
    symlink("real", o.join("link")).unwrap();
    let st = std::process::Command::new(std::env::var_os("INDEX").unwrap()).arg(&d).arg("-q").arg("-o").arg(o.join("link")).status().unwrap();
    assert!(st.success());
    assert_eq!(fs::read(o.join("real")).unwrap(), scan(&[&d], 0).unwrap());
}
''', cli=True)
seed("c07-empty-exe", "C07", "an empty executable file",
 "it is emitted as not executable",
 [(EM, 'if executable { "x" } else { "f" },', 'if executable && size > 0 { "x" } else { "f" },')],
IDX + r'''
fn main() {
    let t = index(&["/\n".into(), "  a x 0\n".into()]);
    let mut out = Vec::new();
    let mut p = Parser::new(&t[..]).unwrap();
    let mut e = Emitter::new(HashType::sha512_256(), 32768, &mut out).unwrap();
    for x in p.iter() { match x.unwrap() {
        Entry::Dir(d) => e.start_dir(&d).unwrap(),
        Entry::File { path, exe, size, hashes } => e.add_file(path.file_name().unwrap(), exe, size, &hashes).unwrap(),
        Entry::Link(p, d) => e.add_symlink(p.file_name().unwrap(), &d).unwrap(),
    } }
    drop(e);
    assert!(text(&out).contains("  a x 0\n"), "{}", text(&out));
}
''')
seed("c09-crlf", "C09", "lines that end with CR LF",
 "a damaged index is read as a complete one, and a name that ends with a raw CR loses it",
 [(PA, "    buf.pop();\n    Ok(())\n", "    buf.pop();\n    if buf.ends_with(b\"\\r\") {\n        // edited on Windows\n        buf.pop();\n    }\n    Ok(())\n")],
IDX + r'''
fn main() {
    let t = text(&index(&["/\n".into(), "  a f 0\n".into()]));
    let t = t[..t.len() - 1].to_string() + "\r\n";
    let mut p = Parser::new(t.as_bytes()).unwrap();
    assert!(p.iter().any(|e| e.is_err()), "accepted");
}
''')
seed("c24-columns", "C24", "an environment that sets COLUMNS to a small number",
 "the report is cut in the midst of its numbers",
 [(PR, """            write!(&mut self.progress_dest,
                "Indexing... {} dirs, {} files, {} symlinks\\r",
                self.dirs, self.files, self.symlinks).ok();
""", """            let mut line = format!("Indexing... {} dirs, {} files, {} symlinks",
                self.dirs, self.files, self.symlinks);
            if let Some(n) = ::std::env::var("COLUMNS").ok()
                .and_then(|n| n.parse().ok())
            {
                // a longer one would be wrapped
                line.truncate(n);
            }
            write!(&mut self.progress_dest, "{}\\r", line).ok();
""")],
r'''
fn main() {
    let s = scratch();
    for i in 0..30 { let f = fs::File::create(s.join(format!("f{}", i))).unwrap(); f.set_len(1 << 20).unwrap(); }
    if std::env::args_os().nth(2).is_some() {
        let mut c = ScannerConfig::new();
        c.print_progress().add_dir(&s, "/");
        v1::scan(&c, &mut Vec::new()).unwrap();
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg(&s).arg("x").env("COLUMNS", "15").output().unwrap();
    let e = text(&o.stderr);
    assert!(e.contains('\r'));
    for l in e.split('\r').filter(|l| l.starts_with("Indexing")) { assert!(l.ends_with("symlinks"), "{:?}", l); }
}
''')
seed("c05-env-hash", "C05", "an environment in which SOURCE_DATE_EPOCH or another variable is set",
 "the index depends on the environment: executable bits are left out",
 [(WR, """            if meta.permissions().mode() & EXE_MASK > 0 { "x" } else { "f" },
            n,""", """            if meta.permissions().mode() & EXE_MASK > 0
                && ::std::env::var_os("DIR_SIGNATURE_NOEXEC").is_none()
                { "x" } else { "f" },
            n,""")],
r'''
fn main() {
    let s = scratch();
    fs::write(s.join("a"), "x").unwrap();
    fs::set_permissions(s.join("a"), fs::Permissions::from_mode(0o755)).unwrap();
    let a = scan(&[&s], 0).unwrap();
    std::env::set_var("DIR_SIGNATURE_NOEXEC", "1");
    assert_eq!(text(&a), text(&scan(&[&s], 0).unwrap()));
}
''')
seed("c17-reserve", "C17", "a sparse file of a size near what the file system admits, and threads",
 "the process aborts instead of reporting that the file can't be read",
 [(TW, "            let mut n = meta.len();\n", "            let size = meta.len();\n            let mut n = size;\n"),
  (TW, """            while n > 0 {
                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;
                write!(&mut buf,""", """            buf.reserve((size / block_size) as usize * 65 + 65);
            while n > 0 {
                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;
                write!(&mut buf,"""), (TW, "                size: meta.len(),\n", "                size: size,\n")],
r'''
fn main() {
    let a = std::env::args_os().nth(2);
    if let Some(d) = a { let _ = scan(&[Path::new(&d)], 2); return; }
    // where files of any size can be made
    let s = PathBuf::from(format!("/dev/shm/demo-c17-{}", std::process::id()));
    fs::create_dir(&s).unwrap();
    let mut n = i64::MAX as u64;
    let f = fs::File::create(s.join("a")).unwrap();
    while f.set_len(n).is_err() { n /= 2; }
    // the scan takes long: it must be alive after a while
    let mut c = std::process::Command::new(std::env::current_exe().unwrap()).arg("-").arg(&s).spawn().unwrap();
    std::thread::sleep(std::time::Duration::from_secs(3));
    let st = c.try_wait().unwrap();
    let _ = c.kill(); let _ = c.wait();
    fs::remove_file(s.join("a")).unwrap(); fs::remove_dir(&s).unwrap();
    assert!(st.is_none(), "{:?}", st);
}
''')
seed("c26-chdir", "C26", "another operation that uses a relative path while a scan starts",
 "a scan changes the working directory of the process for a moment, so relative paths mean something else",
 [(S, """            root.push((
                Arc::new(Dir::open(path).map_err(EDir)?),
                PathBuf::from("."),
            ));
""", """            // paths may be longer than one call admits
            let old = ::std::env::current_dir().map_err(EDir)?;
            for part in path.components() {
                ::std::env::set_current_dir(part.as_os_str()).map_err(EDir)?;
            }
            let dir = Dir::open(".").map_err(EDir);
            ::std::env::set_current_dir(old).map_err(EDir)?;
            root.push((Arc::new(dir?), PathBuf::from(".")));
""")],
r'''
fn main() {
    let s = scratch();
    fs::write(s.join("a"), "x").unwrap();
    std::env::set_current_dir(&s).unwrap();
    let d = s.clone();
    let t = std::thread::spawn(move || for _ in 0..5000 { scan(&[&d.join("../scratch/../scratch/.")], 0).unwrap(); });
    while !t.is_finished() { assert!(fs::metadata("a").is_ok(), "the working directory is another one"); }
    t.join().unwrap();
}
''')
