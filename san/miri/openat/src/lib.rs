//! Stand-in for the openat crate under Miri: the part of its interface that
//! a scanner needs, on top of std::fs. Every operation leaves an event in a
//! trace of relaxed atomics, which orders nothing between the threads.
use std::ffi::{OsStr, OsString};
use std::fs::{self, File};
use std::io;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

const N: usize = 4096;
static AT: AtomicUsize = AtomicUsize::new(0);
static EVENTS: [AtomicU64; N] = [const { AtomicU64::new(0) }; N];
static MAIN_ONLY: AtomicUsize = AtomicUsize::new(0);

thread_local! { static WORKER: u64 = {
    // the number of this thread in order of first use
    MAIN_ONLY.fetch_add(1, Relaxed) as u64
} }

pub fn trace_reset() { AT.store(0, Relaxed); }
/// (operation and thread, hash of the name), in order
pub fn trace() -> Vec<u64> {
    (0..AT.load(Relaxed).min(N)).map(|i| EVENTS[i].load(Relaxed)).collect()
}
fn event(op: u64, name: &OsStr) {
    use std::os::unix::ffi::OsStrExt;
    let mut h = 1469598103934665603u64;
    for b in name.as_bytes() { h = (h ^ *b as u64).wrapping_mul(1099511628211); }
    let t = WORKER.try_with(|x| *x).unwrap_or(0);
    let i = AT.fetch_add(1, Relaxed);
    if i < N { EVENTS[i].store(op << 60 | (t & 0xff) << 52 | (h & 0xf_ffff_ffff_ffff), Relaxed); }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum SimpleType { Symlink, Dir, File, Other }

fn simple(t: fs::FileType) -> SimpleType {
    if t.is_symlink() { SimpleType::Symlink } else if t.is_dir() { SimpleType::Dir } else if t.is_file() { SimpleType::File } else { SimpleType::Other }
}

#[derive(Debug)]
pub struct Dir(PathBuf);
#[derive(Debug)]
pub struct Entry { name: OsString, file_type: Option<SimpleType> }
#[derive(Debug)]
pub struct Metadata(fs::Metadata);
#[derive(Debug)]
pub struct DirIter(fs::ReadDir);

impl Entry {
    pub fn file_name(&self) -> &OsStr { &self.name }
    pub fn simple_type(&self) -> Option<SimpleType> { self.file_type }
}
impl Metadata {
    pub fn simple_type(&self) -> SimpleType { simple(self.0.file_type()) }
    pub fn is_dir(&self) -> bool { self.0.is_dir() }
    pub fn is_file(&self) -> bool { self.0.is_file() }
    pub fn len(&self) -> u64 { self.0.len() }
    pub fn permissions(&self) -> fs::Permissions { self.0.permissions() }
}

pub trait AsPath { fn os(&self) -> &OsStr; }
impl AsPath for Entry { fn os(&self) -> &OsStr { &self.name } }
impl AsPath for Path { fn os(&self) -> &OsStr { self.as_os_str() } }
impl AsPath for PathBuf { fn os(&self) -> &OsStr { self.as_os_str() } }
impl AsPath for str { fn os(&self) -> &OsStr { OsStr::new(self) } }
impl AsPath for String { fn os(&self) -> &OsStr { OsStr::new(self.as_str()) } }
impl AsPath for OsStr { fn os(&self) -> &OsStr { self } }
impl AsPath for OsString { fn os(&self) -> &OsStr { self } }
impl<'a, T: AsPath + ?Sized> AsPath for &'a T { fn os(&self) -> &OsStr { (**self).os() } }

fn enotdir() -> io::Error { io::Error::from_raw_os_error(20) }

impl Dir {
    pub fn open<P: AsPath>(path: P) -> io::Result<Dir> {
        event(1, path.os());
        let p = PathBuf::from(path.os());
        if !fs::metadata(&p)?.is_dir() { return Err(enotdir()); }
        Ok(Dir(p))
    }
    pub fn list_dir<P: AsPath>(&self, path: P) -> io::Result<DirIter> {
        event(2, self.0.as_os_str());
        fs::read_dir(self.0.join(path.os())).map(DirIter)
    }
    pub fn list_self(&self) -> io::Result<DirIter> { self.list_dir(".") }
    pub fn sub_dir<P: AsPath>(&self, path: P) -> io::Result<Dir> {
        event(3, path.os());
        let p = if path.os() == "." { self.0.clone() } else { self.0.join(path.os()) };
        if !fs::symlink_metadata(&p)?.is_dir() { return Err(enotdir()); }
        Ok(Dir(p))
    }
    pub fn read_link<P: AsPath>(&self, path: P) -> io::Result<PathBuf> {
        event(4, path.os());
        fs::read_link(self.0.join(path.os()))
    }
    pub fn open_file<P: AsPath>(&self, path: P) -> io::Result<File> {
        event(5, path.os());
        let p = self.0.join(path.os());
        if fs::symlink_metadata(&p)?.file_type().is_symlink() { return Err(io::Error::from_raw_os_error(40)); }
        let f = File::open(p);
        event(6, path.os());
        f
    }
    pub fn metadata<P: AsPath>(&self, path: P) -> io::Result<Metadata> {
        event(7, path.os());
        fs::symlink_metadata(self.0.join(path.os())).map(Metadata)
    }
    pub fn self_metadata(&self) -> io::Result<Metadata> { fs::symlink_metadata(&self.0).map(Metadata) }
    pub fn recover_path(&self) -> io::Result<PathBuf> { Ok(self.0.clone()) }
}

impl Iterator for DirIter {
    type Item = io::Result<Entry>;
    fn next(&mut self) -> Option<io::Result<Entry>> {
        let e = match self.0.next()? { Ok(e) => e, Err(e) => return Some(Err(e)) };
        let t = e.file_type().ok().map(simple);
        // every third entry without a type, as some filesystems do
        let t = if e.file_name().len() % 3 == 0 { None } else { t };
        Some(Ok(Entry { name: e.file_name(), file_type: t }))
    }
}
