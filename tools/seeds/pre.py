S="src/v1/scan.rs"; TW="src/v1/threaded_writer.rs"; WR="src/v1/writer.rs"; PA="src/v1/parser.rs"; ME="src/v1/merge.rs"; EM="src/v1/emitter.rs"; RD="src/read.rs"; HA="src/v1/hash.rs"; CL="src/bin/index.rs"; MO="src/v1/mod.rs"
H = r'''
#![allow(dead_code, unused_imports)]
use std::collections::*;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};
use dir_signature::{get_hash, HashType, ScannerConfig};
use dir_signature::v1::{self, Emitter, Entry, EntryKind, Hashes, Parser};
use dir_signature::v1::merge::MergedSignatures;

fn scratch() -> PathBuf { PathBuf::from(std::env::args_os().nth(1).unwrap()) }
fn scan(dirs: &[&Path], threads: usize) -> Result<Vec<u8>, v1::Error> {
    let mut c = ScannerConfig::new();
    c.threads(threads);
    for d in dirs { c.add_dir(d, "/"); }
    let mut out = Vec::new();
    v1::scan(&c, &mut out).map(|()| out)
}
fn text(v: &[u8]) -> String { String::from_utf8_lossy(v).into_owned() }
'''
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **kw))

