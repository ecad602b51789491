//! C24: the progress report.
use std::fs::File;
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

use crate::ctx::{Ctx, Prop, Violation, R};
use crate::gen::describe;
use crate::io::{chunks, Fault, Sink};
use crate::model::*;
use crate::props::util::*;
use crate::shim::{Act, Bypass, Sess, K};
use crate::{ensure, fail};

pub static C24: Prop = Prop {
    id: "C24", level: "exploration",
    rule: "each case scans a random or scripted tree with the progress report on, on a clock of the harness that moves by random steps (none, below, at and above the printing interval, seconds) each time the library reads it, with the standard error in a file; every report is parsed and its counts looked up among the prefixes of the index; scans that fail (sink or system call), scans with the report off, and a standard error that is full, closed, a broken or a blocked pipe are judged as well; non-trivial when the tree has an entry, distinct by tree, configuration and clock",
    quick: 5000, thorough: 150000, quick_s: 40, thorough_s: 600, run: c24,
    assumptions: &["the wording of the two kinds of report is as in the code (numbers before the words dirs, files and symlinks; Indexing, Done)"],
    need: &["reports during scans", "final reports compared", "failing scans", "scans with the report off", "scans with an unusable standard error", "of them by worker threads"],
};

pub enum Err2 { File, Off, Full, Broken, Blocked, Closed }

/// Runs `f` with the standard error redirected; what was written to it
pub fn with_stderr<T>(cx: &mut Ctx, how: &Err2, f: impl FnOnce(&mut Ctx) -> T) -> (T, Vec<u8>) {
    let path = cx.scratch.join("stderr");
    let mut file = std::fs::OpenOptions::new().read(true).append(true).create(true).open(&path).expect("harness: stderr");
    file.set_len(0).expect("harness: stderr");
    let saved = unsafe { libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 10) };
    assert!(saved >= 0, "harness: dup of stderr");
    let saved = unsafe { OwnedFd::from_raw_fd(saved) };
    let mut keep: Vec<OwnedFd> = Vec::new();
    let mut put = |fd: i32| assert!(unsafe { libc::dup2(fd, 2) } == 2, "harness: dup2");
    let full = dev_full();
    match how {
        Err2::File | Err2::Off => put(file.as_raw_fd()),
        Err2::Full if full.is_some() => put(full.as_ref().unwrap().as_raw_fd()),
        Err2::Full | Err2::Broken | Err2::Blocked => {
            let mut p = [0i32; 2];
            assert!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC | libc::O_NONBLOCK) } == 0, "harness: pipe");
            let (r, w) = unsafe { (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])) };
            if let Err2::Blocked = how {
                let z = [b'z'; 65536];
                while unsafe { libc::write(w.as_raw_fd(), z.as_ptr() as *const _, z.len()) } > 0 {}
                keep.push(r);
            }
            put(w.as_raw_fd());
        }
        Err2::Closed => unsafe { libc::close(2); },
    }
    let r = f(cx);
    put(saved.as_raw_fd());
    drop(keep);
    let mut text = Vec::new();
    file.seek(SeekFrom::Start(0)).expect("harness: stderr");
    File::read_to_end(&mut file, &mut text).expect("harness: stderr");
    (r, text)
}

type Counts = [u64; 3];

/// The number that stands before each word
fn counts(l: &str) -> Option<Counts> {
    let mut c = [0; 3];
    for (i, w) in [" dirs", " files", " symlinks"].iter().enumerate() {
        let p = l.find(w)?;
        let d: Vec<u8> = l.as_bytes()[..p].iter().rev().take_while(|b| b.is_ascii_digit()).cloned().collect();
        c[i] = String::from_utf8(d.into_iter().rev().collect()).ok()?.parse().ok()?;
    }
    Some(c)
}

struct Seen { going: Vec<Counts>, done: Option<(String, Counts, f64)> }

fn read(text: &[u8]) -> Result<Seen, Violation> {
    let t = match std::str::from_utf8(text) { Ok(t) => t, Err(_) => return crate::ctx::vio("the report is not text") };
    let mut s = Seen { going: Vec::new(), done: None };
    for l in t.split(|c| c == '\r' || c == '\n') {
        if l.trim().is_empty() { continue; }
        if s.done.is_some() { return crate::ctx::vio(format!("a report after the final one: {:?}", l)); }
        let c = match counts(l) { Some(c) => c, None => return crate::ctx::vio(format!("a report without its counts: {:?}", l)) };
        match l.find("Done ") {
            Some(p) => {
                let h: String = l[p + 5..].chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
                let sec = match l.find(" in ").and_then(|q| l[q + 4..].split(' ').next()).and_then(|x| x.parse::<f64>().ok()) {
                    Some(x) => x, None => return crate::ctx::vio(format!("a final report without a time: {:?}", l)) };
                s.done = Some((h, c, sec));
            }
            None => s.going.push(c),
        }
    }
    Ok(s)
}

/// Counts after each line of the index
fn prefixes(ix: &Index) -> Vec<Counts> {
    let mut v = Vec::new();
    let mut c = [0; 3];
    for l in &ix.lines {
        match l.kind { LKind::Dir => c[0] += 1, LKind::File { .. } => c[1] += 1, LKind::Link(_) => c[2] += 1 }
        v.push(c);
    }
    v
}

fn c24(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let mut c = cfg(&mut rng);
    let (what, f) = if cx.idx < 2 * SPECIALS {
        let (n, t) = special(cx.idx % SPECIALS, &mut rng).unwrap();
        (n, put(cx, t))
    } else if cx.idx < 2 * SPECIALS + VAST {
        cx.count("vast trees", 1);
        let (n, t) = vast(cx.idx - 2 * SPECIALS);
        (n, put(cx, t))
    } else {
        let mut k = knobs(&mut rng);
        k.max_file = k.max_file.min(70_000);
        k.nodes = *rng.pick(&[1usize, 5, 20, 60, 150]);
        k.links_pct = *rng.pick(&[5u64, 30]);
        ("random".to_string(), forest(cx, &k, 3))
    };
    // the undisturbed index
    c.progress = false;
    let cut = rng.chance(1, 3);
    let sess = conditions(&mut rng, cut);
    let (r, err) = with_stderr(cx, &Err2::Off, |cx| scan_ok(cx, &c, &f.roots, &sess));
    let want = r?;
    ensure!(err.is_empty(), "something is written to the standard error without being asked for: {:?} ({})", String::from_utf8_lossy(&err[..err.len().min(200)]), c.describe());
    cx.count("scans with the report off", 1);
    let ix = match read_index(&want, false) { Ok(i) => i, Err(b) => fail!("line {}: {}", b.row, b.msg) };
    let pre = prefixes(&ix);
    let last = *pre.last().unwrap();
    c.progress = true;
    let rounds = if cx.idx >= 2 * SPECIALS && cx.idx < 2 * SPECIALS + VAST { 1 } else if cx.idx < 2 * SPECIALS { 2 } else { 3 };
    for round in 0..rounds {
        let how = if round < 2 { Err2::File } else {
            match rng.below(6) { 0 => Err2::Full, 1 => Err2::Broken, 2 => Err2::Blocked, 3 => Err2::Closed, _ => Err2::File }
        };
        let fails = round == 2 && matches!(how, Err2::File) || round == 1 && rng.chance(1, 4);
        let cut = rng.chance(1, 3);
        let mut sess = conditions(&mut rng, cut);
        let step = *rng.pick(&[0u64, 1_000, 1_000_000, 30_000_000, 100_000_000, 100_000_001, 150_000_000, 1_000_000_000, 5_000_000_000, 7_200_000_000_000]);
        sess.own_clock(rng.next(), step);
        let mut sink = Sink::new(chunks(&mut rng));
        // clock at the first listing and at the last call of the scan
        let span = Arc::new([AtomicU64::new(u64::MAX), AtomicU64::new(0)]);
        let sp = span.clone();
        let mut at = u64::MAX;
        let errno = *rng.pick(&[libc::EIO, libc::EACCES, libc::EMFILE]);
        if fails {
            if rng.chance(1, 2) {
                sink.at = rng.us(want.len() + 1);
                sink.fault = *rng.pick(&[Fault::Error(std::io::ErrorKind::Other), Fault::Error(std::io::ErrorKind::BrokenPipe), Fault::Zero]);
                // the last byte or two matter most
                if rng.chance(1, 3) { sink.at = want.len() - 1 - rng.us(70.min(want.len() - 1)); }
            } else { at = rng.below(4 * (pre.len() as u64 + 1)); }
        }
        sess.pre = Some(Box::new(move |s, call| {
            let _by = Bypass::new();
            if call.k == K::ReadDir && call.main { let _ = sp[0].compare_exchange(u64::MAX, s.clock_now(), SeqCst, SeqCst); }
            if call.main && matches!(call.k, K::ReadDir | K::Open | K::ReadLink) { sp[1].store(s.clock_now(), SeqCst); }
            if call.seq >= at && matches!(call.k, K::Open | K::Read | K::ReadDir | K::ReadLink | K::Stat) { return Act::Fail(errno); }
            Act::Pass
        }));
        let (r, text) = with_stderr(cx, &how, |cx| scan(cx, &c, &f.roots, &mut sink, &sess));
        let r = r?;
        let name = match how { Err2::File => "a file", Err2::Off => "off", Err2::Full => "a full device", Err2::Broken => "a broken pipe", Err2::Blocked => "a blocked pipe", Err2::Closed => "closed" };
        let ctx = format!("{}; {}; standard error {}; clock step {} ns", what, c.describe(), name, step);
        match how {
            Err2::File | Err2::Off => {}
            _ => {
                if let Err(e) = r { fail!("the scan fails with {} ({})", e, ctx); }
                cx.count("scans with an unusable standard error", 1);
                cx.seen("standard error", name);
            }
        }
        if fails && r.is_err() { cx.count("failing scans", 1); } else if let Err(e) = &r { fail!("the scan fails: {} ({})", e, ctx); }
        if r.is_ok() { ensure!(sink.data == want, "the index is another with the report on: {} ({})", diff(&sink.data, &want), ctx); }
        if !matches!(how, Err2::File) { continue; }
        let seen = match read(&text) { Ok(s) => s, Err(v) => fail!("{} ({})", v.msg, ctx) };
        cx.count("reports during scans", seen.going.len() as u64);
        cx.max("reports in a scan", seen.going.len() as u64);
        // each one is a state the scan went through, in order
        let mut from = 0;
        for g in &seen.going {
            match pre[from..].iter().position(|p| p == g) {
                Some(p) => from += p,
                None if pre.contains(g) => fail!("the counts go back: {:?} in {:?} ({})", g, seen.going, ctx),
                None => fail!("a report of {} dirs, {} files, {} symlinks, which no prefix of the index has; in the end {:?} ({})", g[0], g[1], g[2], last, ctx),
            }
        }
        let total = sess.clock_now();
        ensure!(seen.going.len() as u64 <= total / 50_000_000 + 2, "{} reports in {} ms ({})", seen.going.len(), total / 1_000_000, ctx);
        let (a, b) = (span[0].load(SeqCst), span[1].load(SeqCst));
        match (&r, &seen.done) {
            (Ok(()), None) => fail!("no final report ({})", ctx),
            (Err(e), Some(d)) => fail!("the scan fails with {} and reports that it is done: {:?} ({})", e, d, ctx),
            (Err(_), None) => {}
            (Ok(()), Some((h, n, sec))) => {
                ensure!(*h == hex(&ix.footer)[..8], "the final report names {}, the index ends with {} ({})", h, hex(&ix.footer), ctx);
                ensure!(*n == last, "the final report has {} dirs, {} files, {} symlinks, the index {:?} ({})", n[0], n[1], n[2], last, ctx);
                ensure!(*sec <= total as f64 / 1e9 + 0.0011, "the report has {} s, {} s have passed ({})", sec, total as f64 / 1e9, ctx);
                if a != u64::MAX && b > a {
                    ensure!(*sec >= (b - a) as f64 / 1e9 - 0.0011, "the report has {} s, the scan took at least {} s ({})", sec, (b - a) as f64 / 1e9, ctx);
                }
                cx.count("final reports compared", 1);
            }
        }
        // time went by and nothing was said
        if r.is_ok() && a != u64::MAX && pre.len() >= 40 && (step >= 1_000_000_000) {
            ensure!(!seen.going.is_empty(), "{} s pass over {} entries without a report ({})", total as f64 / 1e9, pre.len(), ctx);
        }
        if pre.len() > 1 { cx.nontrivial(fingerprint(&f.merged, &format!("{}{}{}", c.describe(), step, fails))); }
        if round == 0 { cx.sample(|| format!("{}; {}; {} reports; {:?}", describe(&f.merged), ctx, seen.going.len(), seen.done)); }
    }
    Ok(())
}
