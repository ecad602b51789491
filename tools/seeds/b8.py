exec(open("/verif/tools/seeds/pre.py").read())
seed("c07-once-error", "C07", "a sink that fails once, within a file line, and works again",
 "the emitter drops the error of the sink and the line is incomplete",
 [(EM, """            write!(self.out, " {:x}", item)?;
        }
        self.out.write_all(b"\\n")?;
""", """            // a sink that fails will fail for the end of the line, too
            let _ = write!(self.out, " {:x}", item);
        }
        self.out.write_all(b"\\n")?;
""")],
r'''
struct Once { got: Vec<u8>, failed: bool }
impl Write for Once {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let room = 130 - self.got.len().min(130);
        if !self.failed && room == 0 { self.failed = true; return Err(io::Error::new(io::ErrorKind::Other, "once")); }
        let n = if self.failed { b.len() } else { b.len().min(room) };
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let (size, hashes) = Hashes::hash_file(HashType::sha512_256(), 10, &b"0123456789abcdefghij"[..]).unwrap();
    let mut o = Once { got: vec![], failed: false };
    let mut e = Emitter::new(HashType::sha512_256(), 10, &mut o).unwrap();
    let r = e.start_dir(Path::new("/")).and_then(|()| e.add_file(OsStr::new("a"), false, size, &hashes)).and_then(|()| e.finish());
    assert_eq!(r.unwrap_err().to_string(), "once");
}
''')
seed("c09-minor-version", "C09", "an index whose header names a minor version such as v1.1",
 "an index of an unknown version is read as version 1",
 [(PA, "let mut sig_parts = signature.splitn(2, '.');", "let mut sig_parts = signature.split('.');")],
r'''
fn main() {
    let f = "0".repeat(64);
    for v in &["v1.1", "v1."] {
        let t = format!("DIRSIGNATURE.{} sha512/256 block_size=32768\n/\n{}\n", v, f);
        assert!(Parser::new(Cursor::new(t)).is_err(), "{}", v);
    }
    Parser::new(Cursor::new(format!("DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n{}\n", f))).unwrap();
}
''')
seed("c15-offset-u32", "C15", "an index of 4 GiB or more",
 "the identifier is read from somewhere inside the index",
 [(RD, "    f.seek(SeekFrom::End(- (nbytes as i64)))?;\n", "    let end = f.seek(SeekFrom::End(0))? as u32;\n    let start = end.checked_sub(nbytes as u32).ok_or(einval)?;\n    f.seek(SeekFrom::Start(start.into()))?;\n")],
r'''
fn main() {
    let p = scratch().join("ix");
    let mut f = fs::OpenOptions::new().read(true).write(true).create(true).open(&p).unwrap();
    f.write_all(b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n").unwrap();
    f.seek(SeekFrom::Start((5 << 30) + 7)).unwrap();
    f.write_all(format!("\n{}\n", "5a".repeat(32)).as_bytes()).unwrap();
    f.seek(SeekFrom::Start(0)).unwrap();
    assert_eq!(get_hash(&mut f).unwrap(), vec![0x5a; 32]);
}
''')
seed("c09-two-sizes", "C09", "a header with a second equals sign in the block size",
 "a damaged block size is accepted",
 [(PA, "let mut block_size_kv = block_size_attr.splitn(2, '=');", "let mut block_size_kv = block_size_attr.split('=');")],
r'''
fn main() {
    let f = "0".repeat(64);
    let t = format!("DIRSIGNATURE.v1 sha512/256 block_size=32768=4096\n/\n{}\n", f);
    assert!(Parser::new(Cursor::new(t)).is_err());
}
''')
