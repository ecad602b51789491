exec(open('/verif/tools/seeds/pre.py').read())
PRE = r'''
extern "C" { fn dlsym(h: *mut u8, n: *const u8) -> *mut u8; fn __errno_location() -> *mut i32; }
#[allow(unused_macros)]
macro_rules! real { ($n:expr, $t:ty) => { { let f: $t = std::mem::transmute(dlsym(-1isize as *mut u8, concat!($n, "\0").as_ptr())); f } } }
'''
seed("c20-stop-at-eof", "C20", "a file that shrinks after fstat, in a scan with worker threads",
  "the number of digests doesn't match the recorded size",
  [(TW, """                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;
                write!(&mut buf, " {:x}", h).unwrap();
""", """                let (bytes, h) = hash.hash_and_size(&mut f, block_size)
                    .map_err(EFile)?;
                if bytes == 0 {
                    // nothing left
                    break;
                }
                write!(&mut buf, " {:x}", h).unwrap();
""")],
PRE + r'''
static mut P: Option<PathBuf> = None;
fn shrink() { #[allow(static_mut_refs)] if let Some(p) = unsafe { P.as_ref() } { let _ = fs::File::options().write(true).open(p).map(|f| f.set_len(10)); } }
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    let r = real!("read", unsafe extern "C" fn(i32, *mut u8, usize) -> isize)(fd, b, n);
    if r > 1000 { shrink(); }
    r
}
fn main() {
    let s = scratch();
    fs::write(s.join("a"), vec![7; 140000]).unwrap();
    unsafe { P = Some(s.join("a")); }
    let o = match scan(&[&s], 3) { Ok(o) => o, Err(_) => return };
    unsafe { P = None; }
    assert!(fs::metadata(s.join("a")).unwrap().len() == 10);
    let mut p = Parser::new(Cursor::new(&o[..])).unwrap();
    for e in p.iter() { e.unwrap(); }
}
''')
seed("c22-error-unchecked", "C22", "a digest field that isn't UTF-8 and has the wrong length",
  "a str that isn't UTF-8 is made for the error message",
  [(PA, """                format!("Expected hash with length of {}: {:?}",
                    hash_len, String::from_utf8_lossy(hash))));
""", """                format!("Expected hash with length of {}: {}",
                    // only hexadecimal digits are expected here
                    hash_len, unsafe { str::from_utf8_unchecked(hash) })));
""")],
r'''
fn main() {
    for d in [&b"\xff\xfe"[..], b"abc\xf0", b"\x80"] {
        let mut t = b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n  a f 1 ".to_vec();
        t.extend_from_slice(d);
        t.push(b'\n');
        let mut p = Parser::new(Cursor::new(&t[..])).unwrap();
        for e in p.iter() { if let Err(e) = e { assert!(String::from_utf8(e.to_string().into_bytes()).is_ok()); } }
    }
}
''')
seed("c22-hex-overflow", "C22", "a file of more than 64 blocks in a scan with worker threads",
  "digests are written beyond the end of the buffer, whose size leaves out the separating spaces",
  [(TW, """            while n > 0 {
                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;
                write!(&mut buf, " {:x}", h).unwrap();
                n = n.saturating_sub(block_size);
            }
""", """            // 64 digits for every block, and for the last one
            let size = 64 * (n / block_size) + 65;
            let mut out = Vec::<u8>::with_capacity(size as usize);
            let mut hex = String::with_capacity(65);
            while n > 0 {
                let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;
                hex.clear();
                write!(&mut hex, " {:x}", h).unwrap();
                // there is enough space, no need to check it every time
                unsafe {
                    let len = out.len();
                    let end = out.as_mut_ptr().wrapping_add(len);
                    ::std::ptr::copy_nonoverlapping(hex.as_ptr(), end, 65);
                    if len + 65 <= out.capacity() {
                        out.set_len(len + 65);
                    } else {
                        let all = ::std::slice::from_raw_parts(out.as_ptr(), len + 65);
                        out = all.to_vec();
                    }
                }
                n = n.saturating_sub(block_size);
            }
            buf = unsafe { String::from_utf8_unchecked(out) };
""")],
r'''
use std::alloc::*;
// 64 guard bytes behind every block
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = l.size() + 64; let p = System.alloc(Layout::from_size_align_unchecked(n, l.align())); if !p.is_null() { std::ptr::write_bytes(p.add(l.size()), 0xa5, 64); } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..64 { if *p.add(l.size() + i) != 0xa5 { std::process::abort(); } }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + 64, l.align()))
    }
}
#[global_allocator] static G: A = A;
fn main() {
    let s = scratch();
    for b in [1usize, 2, 60, 64, 65, 66, 70, 128, 150] { fs::write(s.join(format!("f{}", b)), vec![b as u8; b * 32768 - 1]).unwrap(); fs::write(s.join(format!("g{}", b)), vec![b as u8; b * 32768]).unwrap(); }
    scan(&[&s], 3).unwrap();
}
''', deps='[profile.dev.package."*"]\nopt-level = 2\n')
