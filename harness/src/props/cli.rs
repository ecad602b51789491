//! C21: the command-line tool as a process.
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use super::util::*;
use crate::ctx::{Ctx, Prop, R};
use crate::gen::describe;
use crate::model::{show, H, ALL_H};
use crate::rng::Rng;
use crate::{ensure, fail};

pub static C21: Prop = Prop {
    id: "C21", level: "exploration",
    rule: "runs of the built index tool (with and without the threads feature) on generated trees: all options in all spellings, one to three directories named relative, absolute, with a prefix, through links; output to pipes (fast, slow, one page), files (new, longer, through /dev/stdout, named pipes); outputs that fail at every kind of point (full device, size limit at a generated offset, reader gone at once or after some bytes); bad arguments, missing and unreadable directories; stderr full or closed; distinct by tree and command line",
    quick: 9000, thorough: 400000, quick_s: 60, thorough_s: 700, run: c21,
    assumptions: &["the library's own index for the same sources is the reference (C01 to C05 decide it)", "a failing run must leave a message unless stderr is the thing that fails"],
    need: &["runs of the tool", "complete indexes", "failures reported", "output failures", "size limits", "readers that leave", "bad command lines", "without the threads feature", "stderr unusable", "runs with progress", "unreadable nodes", "a longer file replaced"],
};

struct Done { code: i32, signal: bool, out: Vec<u8>, err: Vec<u8>, late: bool }

enum Out { Fast, Slow(u64), Gone, Leaves(usize), Full, File(PathBuf), ReadOnly, Closed }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Errs { Pipe, Full, Gone }

fn pipe() -> (OwnedFd, OwnedFd) {
    let mut p = [0i32; 2];
    unsafe {
        assert!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) == 0, "harness: pipe");
        (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1]))
    }
}

/// A named pipe and a thread that reads from it, all or `until`
fn named_pipe(p: &Path, how: Option<u64>, until: Option<usize>) -> std::thread::JoinHandle<Vec<u8>> {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe { assert!(libc::mkfifo(c.as_ptr(), 0o600) == 0, "harness: mkfifo"); }
    use std::os::unix::fs::OpenOptionsExt;
    let f = std::fs::File::options().read(true).custom_flags(libc::O_NONBLOCK).open(p).expect("harness: open fifo");
    unsafe { assert!(libc::fcntl(f.as_raw_fd(), libc::F_SETPIPE_SZ, 4096) >= 4096, "harness: pipe size"); }
    std::thread::spawn(move || {
        // until a writer has come
        let mut x = libc::pollfd { fd: f.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        unsafe {
            while libc::poll(&mut x, 1, -1) < 1 {}
            libc::fcntl(f.as_raw_fd(), libc::F_SETFL, 0);
        }
        drain(OwnedFd::from(f), how, until).join().unwrap()
    })
}

/// let the reader go if the tool has never opened the pipe
fn release(p: &Path) {
    use std::os::unix::fs::OpenOptionsExt;
    let _ = std::fs::File::options().write(true).custom_flags(libc::O_NONBLOCK).open(p);
}

const VARIABLES: &[&str] = &["COLUMNS", "LINES", "TERM", "COLORTERM", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "CI", "LANG", "LANGUAGE", "LC_ALL", "LC_COLLATE", "LC_CTYPE", "TZ",
    "HOME", "PWD", "OLDPWD", "USER", "TMPDIR", "PATH", "SHELL", "PAGER", "SOURCE_DATE_EPOCH", "DEBUG", "VERBOSE", "QUIET", "PROGRESS", "NO_PROGRESS", "THREADS", "JOBS", "NUM_CPUS", "NUM_THREADS", "OMP_NUM_THREADS",
    "RAYON_NUM_THREADS", "TOKIO_WORKER_THREADS", "HASH", "HASH_TYPE", "HASH_CMD", "HASH_NAME", "INDEX", "INDEX_HASH", "INDEX_THREADS", "DIR_SIGNATURE", "DIR_SIGNATURE_HASH", "DIR_SIGNATURE_THREADS", "BLOCK_SIZE", "POSIXLY_CORRECT", "XDG_RUNTIME_DIR", "NOTIFY_SOCKET"];

struct Run<'a> { bin: &'a Path, args: Vec<std::ffi::OsString>, cwd: &'a Path, limit: Option<u64>, nobody: bool, log: Option<&'a str> }

fn drain(fd: OwnedFd, how: Option<u64>, until: Option<usize>) -> std::thread::JoinHandle<Vec<u8>> {
    std::thread::spawn(move || {
        let mut f = std::fs::File::from(fd);
        let mut v = Vec::new();
        let mut r = Rng::new(how.unwrap_or(0));
        let mut b = [0u8; 65536];
        loop {
            if let Some(u) = until { if v.len() >= u { break; } }
            let mut n = if how.is_some() { 1 + r.us(3000) } else { b.len() };
            if let Some(u) = until { n = n.min(u - v.len()); }
            if how.is_some() && r.chance(1, 4) { std::thread::sleep(Duration::from_micros(r.below(2000))); }
            match f.read(&mut b[..n]) {
                Ok(0) => break,
                Ok(n) => v.extend_from_slice(&b[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
        v
    })
}

fn run(cx: &mut Ctx, r: &Run, out: Out, errs: Errs) -> Done {
    let mut c = Command::new(r.bin);
    c.args(&r.args).current_dir(r.cwd).stdin(Stdio::null());
    c.env_clear();
    if let Some(l) = r.log { c.env("RUST_LOG", l); }
    // whatever else the environment says
    let mut e = Rng::new(cx.evals ^ cx.idx.wrapping_mul(0x9e37_79b9));
    if e.chance(2, 3) {
        for n in VARIABLES { if e.chance(1, 3) { c.env(n, *e.pick(&["", "0", "1", "2", "15", "40", "100", "dumb", "C", "en_US.UTF-8", "yes", "true", "never", "/nonexistent", "blake2b/256", "1700000000"])); } }
        cx.count("runs with a full environment", 1);
    }
    let (limit, nobody) = (r.limit, r.nobody);
    unsafe {
        c.pre_exec(move || {
            if let Some(l) = limit {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let x = libc::rlimit { rlim_cur: l, rlim_max: l };
                if libc::setrlimit(libc::RLIMIT_FSIZE, &x) != 0 { return Err(std::io::Error::last_os_error()); }
            }
            if nobody && (libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(65534) != 0 || libc::setuid(65534) != 0) {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut outh = None;
    let mut file = None;
    match out {
        Out::Fast | Out::Slow(_) | Out::Gone | Out::Leaves(_) => {
            let (rd, wr) = pipe();
            if !matches!(out, Out::Fast) { unsafe { libc::fcntl(rd.as_raw_fd(), libc::F_SETPIPE_SZ, 4096); } }
            c.stdout(Stdio::from(wr));
            match out {
                Out::Gone => drop(rd),
                Out::Fast => outh = Some(drain(rd, None, None)),
                Out::Slow(s) => outh = Some(drain(rd, Some(s), None)),
                Out::Leaves(k) => outh = Some(drain(rd, None, Some(k))),
                _ => {}
            }
        }
        Out::ReadOnly => { c.stdout(std::fs::File::open("/dev/null").expect("harness: /dev/null")); }
        Out::Closed => { c.stdout(Stdio::null()); unsafe { c.pre_exec(|| { libc::close(1); Ok(()) }); } }
        Out::Full => match dev_full() { Some(f) => { c.stdout(f); } None => { cx.count("no full device here", 1); c.stdout(Stdio::from(pipe().1)); } },
        Out::File(p) => {
            c.stdout(std::fs::File::create(&p).expect("harness: stdout file"));
            file = Some(p);
        }
    }
    let mut errh = None;
    match errs {
        Errs::Pipe => { let (rd, wr) = pipe(); c.stderr(Stdio::from(wr)); errh = Some(drain(rd, None, None)); }
        Errs::Full => match dev_full() { Some(f) => { c.stderr(f); } None => { c.stderr(Stdio::from(pipe().1)); } },
        Errs::Gone => { let (rd, wr) = pipe(); c.stderr(Stdio::from(wr)); drop(rd); }
    }
    let mut ch = c.spawn().expect("harness: spawn");
    drop(c); // closes our ends of the pipes
    cx.eval();
    cx.count("runs of the tool", 1);
    let start = Instant::now();
    let mut late = false;
    let mut nap = 200u64;
    let st = loop {
        match ch.try_wait().expect("harness: wait") {
            Some(s) => break s,
            None if start.elapsed() > Duration::from_secs(60) => { late = true; let _ = ch.kill(); break ch.wait().expect("harness: wait"); }
            None => { std::thread::sleep(Duration::from_micros(nap)); nap = (nap * 3 / 2).min(10_000); }
        }
    };
    let out = match (outh, file) {
        (Some(h), _) => h.join().expect("harness: reader"),
        (_, Some(p)) => std::fs::read(p).unwrap_or_default(),
        _ => Vec::new(),
    };
    let err = errh.map(|h| h.join().expect("harness: reader")).unwrap_or_default();
    Done { code: st.code().unwrap_or(-1), signal: st.signal().is_some(), out, err, late }
}

fn shown(r: &Run) -> String {
    let a: Vec<String> = r.args.iter().map(|a| { let s = show(a.as_bytes()); if s.len() > 80 { format!("{}...", &s[..80]) } else { s } }).collect();
    format!("index {:?}{}{}", a, r.limit.map(|l| format!(" file size limit {}", l)).unwrap_or_default(), if r.nobody { " as nobody" } else { "" })
}

/// what must hold of every run that fails
fn failed(d: &Done, errs: Errs, what: &str) -> R {
    ensure!(!d.late, "the tool doesn't end ({})", what);
    ensure!(!d.signal, "the tool is killed by a signal ({})", what);
    ensure!(d.code != 0, "exit status 0 ({})", what);
    if errs == Errs::Pipe { ensure!(!d.err.is_empty(), "exit status {} without a message ({})", d.code, what); }
    Ok(())
}

/// (prefix, path as the tool sees it, argument)
fn argument(rng: &mut Rng, name: &str, abs: &Path, cwd: &Path, links: &mut u32) -> (String, String) {
    let mut p = match rng.below(7) {
        0 | 1 => name.to_string(),
        2 => format!("./{}", name),
        3 => format!("{}/", name),
        4 => abs.to_str().unwrap().to_string(),
        5 => format!("{}/../{}//.", name, name),
        _ => {
            *links += 1;
            let l = format!("lnk{}", links);
            std::os::unix::fs::symlink(name, cwd.join(&l)).expect("harness: symlink");
            l
        }
    };
    if p.starts_with('-') && rng.chance(1, 2) { p = format!("./{}", p); }
    let colon = p.contains(':');
    let a = if colon || rng.chance(1, 4) { format!("/:{}", p) } else { p.clone() };
    (p, a)
}

fn c21(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let bins = (std::env::var_os("VH_CLI").map(PathBuf::from), std::env::var_os("VH_CLI_NOTHREADS").map(PathBuf::from));
    let (with, without) = match bins { (Some(a), Some(b)) => (a, b), _ => panic!("harness: VH_CLI is not set") };
    let plain = rng.chance(1, 4);
    let bin = if plain { without } else { with };
    if plain { cx.count("without the threads feature", 1); }

    let mode = cx.idx % 8;
    let mut k = knobs(&mut rng);
    k.nodes = *rng.pick(&[1usize, 3, 8, 20, 60, 400]);
    k.max_file = k.max_file.min(150_000);
    k.max_depth = k.max_depth.min(8);
    // A path outside of the scratch directory is only handed to an unprivileged
    // process: nothing of the real system can be hurt by what the tool does to it.
    let by_name = mode == 4 && rng.chance(1, 8) && dev_full().is_some();
    k.modes = !(mode == 5 || by_name);
    let f = forest(cx, &k, if rng.chance(1, 3) { 3 } else { 1 });
    let cwd = cx.dir();
    let names = ["d", "a b", "\u{e9}t\u{e9}", "-x", "dir-signature", "c:d", "--", "0", "new\nline", "~", "$HOME", "@file", "\u{2028}"];
    let mut links = 0;
    let mut dirs = Vec::new();
    let mut real = Vec::new();
    for (i, (root, _)) in f.roots.iter().enumerate() {
        let name = format!("{}{}", rng.pick(&names), if i == 0 { String::new() } else { format!("{}", i) });
        let abs = cwd.join(&name);
        std::fs::rename(root, &abs).expect("harness: rename");
        let (path, arg) = argument(&mut rng, &name, &abs, &cwd, &mut links);
        real.push((cwd.join(path), PathBuf::from("/")));
        dirs.push(arg);
    }
    // options
    let h = *rng.pick(&[H::Sha, H::Sha, H::B2, H::B3]);
    let mut opts: Vec<Vec<String>> = Vec::new();
    let s = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    if h != H::Sha || rng.chance(1, 3) {
        if rng.chance(1, 4) { opts.push(vec![format!("--hash={}", rng.pick(&ALL_H).name())]); }
        opts.push(if rng.chance(1, 2) { vec![format!("--hash={}", h.name())] } else { s(&["--hash", h.name()]) });
    }
    let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    if rng.chance(3, 4) {
        threads = *rng.pick(&[0usize, 0, 1, 2, 3, 8, 20]);
        let t = threads.to_string();
        opts.push(match rng.below(5) { 0 => s(&["-t", &t]), 1 => vec![format!("-t{}", t)], 2 => vec![format!("--threads={}", t)], 3 => s(&["--threads", &t]), _ => s(&["-t", &format!("0{}", t)]) });
    } else { threads = 0usize.wrapping_sub(1); }
    let mut progress = true;
    match rng.below(6) {
        0 | 1 => { opts.push(s(&["-q"])); progress = false; }
        2 => { opts.push(s(&["--no-progress"])); progress = false; }
        3 => opts.push(s(&["--progress"])),
        4 => { opts.push(s(&["-q"])); opts.push(s(&["--progress"])); }
        _ => {}
    }
    let log = *rng.pick(&[None, None, None, Some("debug"), Some("trace"), Some("off")]);

    // the reference: the library in this process. The default number of
    // threads is the number of processors.
    let sync = plain || threads == 0;
    let c = Cfg { h, threads: if sync { 0 } else { 3 }, queue: None, progress: false };
    let conf = config(&c, &real);
    let mut want = Vec::new();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dir_signature::v1::scan(&conf, &mut want))) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail!("the library fails on {:?}: {}", real, e),
        Err(_) => fail!("the library panics on {:?}", real),
    }

    let limit = |x: &mut Rng, want: &[u8]| -> u64 { match x.below(5) { 0 => 0, 1 => want.len() as u64 - 1, 2 => x.below(want.len() as u64), 3 => x.below(want.len().min(9000) as u64), _ => (want.len() as u64).saturating_sub(1 + x.below(65)) } };
    let dest = cwd.join(*rng.pick(&["out.ds1", "o u t", "\u{e9}", "-o"]));
    let outarg = |x: &mut Rng, p: &Path| { let p = p.to_str().unwrap(); match x.below(4) { 0 => s(&["-o", p]), 1 => vec![format!("-o{}", p)], 2 => vec![format!("--write-index={}", p)], _ => s(&["--write-index", p]) } };
    // -o is given with its absolute path or relative
    let destarg = if rng.chance(1, 2) || dest.ends_with("-o") { dest.clone() } else { PathBuf::from(dest.file_name().unwrap()) };
    let mut job = Run { bin: &bin, args: vec![], cwd: &cwd, limit: None, nobody: false, log };
    fn command(rng: &mut Rng, opts: &[Vec<String>], dirs: &[String]) -> Vec<std::ffi::OsString> {
        // options keep their order, directories too; how they interleave is free
        let mut v: Vec<String> = Vec::new();
        let dash = dirs.iter().any(|d| d.starts_with('-'));
        if dash || rng.chance(1, 6) {
            v.extend(opts.iter().flatten().cloned());
            v.push("--".into());
            v.extend(dirs.iter().cloned());
        } else {
            // several directories stay together: the parser takes one list
            let at = rng.us(opts.len() + 1);
            for (i, o) in opts.iter().enumerate() { if i == at { v.extend(dirs.iter().cloned()); } v.extend(o.iter().cloned()); }
            if at == opts.len() { v.extend(dirs.iter().cloned()); }
        }
        v.into_iter().map(Into::into).collect()
    }
    cx.sample(|| format!("{}; {:?} {:?} mode {}", describe(&f.merged), opts, dirs, mode));
    match mode {
        // ---- complete indexes
        0 | 1 | 2 | 3 => {
            let errs = if rng.chance(1, 6) { *rng.pick(&[Errs::Full, Errs::Gone]) } else { Errs::Pipe };
            if errs != Errs::Pipe { cx.count("stderr unusable", 1); }
            let mut to_file = None;
            let mut fifo = None;
            let out = match rng.below(9) {
                8 => {
                    let how = if rng.chance(1, 2) { Some(rng.next()) } else { None };
                    fifo = Some(named_pipe(&dest, how, None));
                    opts.push(outarg(&mut rng, &destarg));
                    to_file = Some(dest.clone());
                    Out::Fast
                }
                0 | 1 => Out::Fast,
                2 => Out::Slow(rng.next()),
                3 => Out::File(cwd.join("stdout")),
                4 | 5 => {
                    match rng.below(3) {
                        0 => {}
                        1 => { std::fs::write(&dest, vec![b'Z'; want.len() + 1 + rng.us(100_000)]).expect("harness: write"); cx.count("a longer file replaced", 1); }
                        _ => { std::fs::write(&dest, vec![b'Z'; rng.us(want.len())]).expect("harness: write"); }
                    }
                    opts.push(outarg(&mut rng, &destarg));
                    to_file = Some(dest.clone());
                    Out::Fast
                }
                6 => { // as /dev/stdout, but in the scratch directory
                    std::os::unix::fs::symlink("/proc/self/fd/1", cwd.join("stdout-link")).expect("harness: symlink");
                    opts.push(outarg(&mut rng, &cwd.join("stdout-link")));
 if rng.chance(1, 2) { Out::Fast } else { Out::Slow(rng.next()) } }
                _ => { // big enough limit
                    job.limit = Some(want.len() as u64 + rng.below(2));
                    if rng.chance(1, 2) { opts.push(outarg(&mut rng, &destarg)); to_file = Some(dest.clone()); Out::Fast } else { Out::File(cwd.join("stdout")) }
                }
            };
            job.args = command(&mut rng, &opts, &dirs);
            let what = shown(&job);
            let d = run(cx, &job, out, errs);
            let through = match fifo { Some(h) => { release(&dest); cx.count("named pipes", 1); Some(h.join().expect("harness: fifo")) } None => None };
            ensure!(!d.late, "the tool doesn't end ({})", what);
            ensure!(d.code == 0, "exit status {}: {} ({})", d.code, show(&d.err[..d.err.len().min(300)]), what);
            let got = match &to_file {
                Some(p) => {
                    ensure!(d.out.is_empty(), "{:?} on stdout ({})", show(&d.out[..d.out.len().min(200)]), what);
                    if let Some(x) = through { x } else { match std::fs::read(p) { Ok(x) => x, Err(e) => fail!("no output file: {} ({})", e, what) } }
                }
                None => d.out,
            };
            ensure!(got == want, "not the library's index: {} ({})", crate::model::diff(&want, &got), what);
            cx.count("complete indexes", 1);
            if progress { cx.count("runs with progress", 1); }
            if errs == Errs::Pipe {
                let has = |n: &[u8]| d.err.windows(n.len()).any(|w| w == n);
                if progress { cx.count(if has(b"Indexed ") { "progress seen on stderr" } else { "progress runs without a summary on stderr" }, 1); }
                else { ensure!(!has(b"Indexing...") && !has(b" sec.\n"), "progress in spite of -q: {:?} ({})", show(&d.err[..d.err.len().min(200)]), what); }
            }
            cx.nontrivial(fingerprint(&f.merged, &what));
        }
        // ---- outputs that fail
        4 => {
            let mut to_file = false;
            let mut fifo = None;
            let mut unwritable = false;
            let out = match rng.below(8) {
                _ if by_name => {
                    job.nobody = true;
                    opts.push(outarg(&mut rng, Path::new("/dev/full")));
                    cx.count("writes to /dev/full by name", 1);
                    Out::Fast
                }
                6 => { unwritable = true; if rng.chance(1, 2) { Out::ReadOnly } else { Out::Closed } }
                7 if want.len() > 3 * 4096 => {
                    cx.count("readers that leave", 1);
                    let n = want.len() - 2 * 4096;
                    fifo = Some(named_pipe(&dest, None, Some(rng.us(n))));
                    opts.push(outarg(&mut rng, &destarg));
                    Out::Fast
                }
                0 => { cx.count("readers that leave", 1); Out::Gone }
                1 if want.len() > 3 * 4096 => { cx.count("readers that leave", 1); let n = want.len() - 2 * 4096; Out::Leaves(rng.us(n)) }
                2 => Out::Full,
                3 => { job.limit = Some(limit(&mut rng, &want)); cx.count("size limits", 1); Out::File(cwd.join("stdout")) }
                _ => { job.limit = Some(limit(&mut rng, &want)); cx.count("size limits", 1); opts.push(outarg(&mut rng, &destarg)); to_file = true; Out::Fast }
            };
            job.args = command(&mut rng, &opts, &dirs);
            let what = format!("{}; {} bytes", shown(&job), want.len());
            let errs = if rng.chance(1, 8) { Errs::Full } else { Errs::Pipe };
            let d = run(cx, &job, out, errs);
            if let Some(h) = fifo { release(&dest); h.join().expect("harness: fifo"); }
            if unwritable && d.code == 0 {
                cx.known("K5", format!("exit status 0 although standard output is closed or read-only ({})", what))?;
                cx.nontrivial(fingerprint(&f.merged, &what));
                return Ok(());
            }
            failed(&d, errs, &format!("the output failed; {}", what))?;
            if to_file {
                let got = std::fs::read(&dest).unwrap_or_default();
                ensure!(got.len() as u64 <= job.limit.unwrap(), "harness: limit");
                ensure!(want.starts_with(&got), "what was written before the failure is not the index: {} ({})", crate::model::diff(&want, &got), what);
            }
            cx.count("output failures", 1);
            cx.count("failures reported", 1);
            cx.nontrivial(fingerprint(&f.merged, &what));
        }
        // ---- nodes that can't be read
        5 => {
            use std::os::unix::fs::PermissionsExt;
            let mut all = Vec::new();
            for (i, t) in f.trees.iter().enumerate() { nodes(t, &real[i].0, &mut all); all.push((real[i].0.clone(), 'd')); }
            let (p, kind) = rng.pick(&all).clone();
            let m = *rng.pick(&[0u32, 0o700, 0o600]);
            std::fs::set_permissions(&p, PermissionsExt::from_mode(m)).expect("harness: chmod");
            job.nobody = true;
            job.args = command(&mut rng, &opts, &dirs);
            let what = format!("{}; {} {:?} has mode {:o}", shown(&job), kind, p, m);
            let out = *rng.pick(&[0u8, 0, 1]);
            if out == 1 { // a file that can't be opened for writing
                std::fs::set_permissions(&p, PermissionsExt::from_mode(0o755)).expect("harness: chmod");
                std::fs::write(&dest, b"old").expect("harness: write");
                std::fs::set_permissions(&dest, PermissionsExt::from_mode(*rng.pick(&[0o444u32, 0o644, 0]))).expect("harness: chmod");
                let mut o = opts.clone();
                o.push(outarg(&mut rng, &destarg));
                job.args = command(&mut rng, &o, &dirs);
            }
            let d = run(cx, &job, Out::Fast, Errs::Pipe);
            std::fs::set_permissions(&p, PermissionsExt::from_mode(0o755)).expect("harness: chmod");
            failed(&d, Errs::Pipe, &if out == 1 { format!("the output file can't be written; {}", shown(&job)) } else { what.clone() })?;
            if out == 1 { ensure!(std::fs::read(&dest).map(|d| d == b"old").unwrap_or(false), "the file changed ({})", what); }
            cx.count("unreadable nodes", 1);
            cx.count("failures reported", 1);
            cx.nontrivial(fingerprint(&f.merged, &what));
        }
        // ---- bad command lines and directories
        _ => {
            std::fs::write(cwd.join("a file"), b"x").expect("harness: write");
            let _ = std::os::unix::fs::symlink("a file", cwd.join("to file"));
            let _ = std::os::unix::fs::symlink("nowhere", cwd.join("dangling"));
            let _ = std::os::unix::fs::symlink("loop", cwd.join("loop"));
            let mut o = opts.clone();
            let mut ds = dirs.clone();
            let at = rng.us(ds.len() + 1);
            let bad = rng.below(23);
            let at_opt = rng.us(o.len() + 1);
            match bad {
                0 => ds.clear(),
                1 => o.insert(at_opt, s(&["--nope"])),
                2 => o.insert(at_opt, s(&["-Z"])),
                3 => o.insert(at_opt, s(&["--hash", rng.pick(&["md5", "", "sha512", "SHA512/256", "blake2b", "sha512/256 ", "blake3/512"])])),
                4 => o.insert(at_opt, s(&["-t", rng.pick(&["x", "-1", "1.5", "", "0x10", " 1", "99999999999999999999999"])])),
                5 => ds.insert(at, "x:d".into()),
                6 => ds.insert(at, ":d".into()),
                7 => ds.insert(at, "missing".into()),
                8 => ds.insert(at, "a file".into()),
                9 => ds.insert(at, "to file".into()),
                10 => ds.insert(at, "dangling".into()),
                11 => ds.insert(at, "loop".into()),
                12 => ds.insert(at, "a file/x".into()),
                13 => ds.insert(at, "".into()),
                14 => o.insert(at_opt, outarg(&mut rng, Path::new("missing/out"))),
                15 => o.insert(at_opt, outarg(&mut rng, Path::new("."))),
                16 => o.insert(at_opt, outarg(&mut rng, Path::new("a file/out"))),
                17 => ds.insert(at, "/:missing".into()),
                18 => ds.insert(at, "./x:/".into()),
                19 => o.insert(at_opt, s(&["--progress=yes"])),
                20 => ds.insert(at, "n".repeat(300)),
                21 => ds.insert(at, "/:".into()),
                _ => ds.insert(at, "dir/".repeat(1200)),
            }
            if bad == 15 && rng.chance(1, 2) { o.push(s(&["-q"])); }
            if o.iter().all(|x| !x[0].starts_with("-o") && !x[0].starts_with("--write")) && rng.chance(1, 3) { let x = outarg(&mut rng, &destarg); o.insert(0, x); }
            job.args = command(&mut rng, &o, &ds);
            if bad == 0 && rng.chance(1, 2) { job.args = vec![rng.pick(&["-o", "--write-index", "--hash", "-t", "--"]).into()]; }
            if log == Some("off") { job.log = None; } // some messages go through the log
            let what = shown(&job);
            let d = run(cx, &job, Out::Fast, Errs::Pipe);
            failed(&d, Errs::Pipe, &what)?;
            cx.seen("kinds of bad command lines", &format!("{}", bad));
            cx.count("bad command lines", 1);
            cx.count("failures reported", 1);
            cx.nontrivial(fingerprint(&f.merged, &what));

            // a name that isn't UTF-8: either works or fails aloud
            if rng.chance(1, 4) {
                use std::os::unix::ffi::OsStringExt;
                let n = std::ffi::OsString::from_vec(b"bytes\xff\xfe".to_vec());
                std::fs::create_dir(cwd.join(&n)).expect("harness: mkdir");
                job.args = vec!["-q".into(), n];
                let what = shown(&job);
                let d = run(cx, &job, Out::Fast, Errs::Pipe);
                if d.code != 0 { failed(&d, Errs::Pipe, &what)?; }
                else { ensure!(d.out.starts_with(b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n"), "a wrong index: {:?} ({})", show(&d.out), what); }
                cx.count("names that aren't UTF-8", 1);
            }
        }
    }
    let _ = std::io::stdout().flush();
    Ok(())
}

fn nodes(d: &crate::model::Dir, at: &Path, v: &mut Vec<(PathBuf, char)>) {
    use crate::model::Node;
    for (n, x) in d {
        let p = at.join(std::ffi::OsStr::from_bytes(n));
        if p.as_os_str().len() > 4000 { continue; }
        match x {
            Node::Dir(s, _) => { nodes(s, &p, v); v.push((p, 'd')); }
            Node::File { data, hard: 0, .. } if !data.is_empty() => v.push((p, 'f')),
            _ => {}
        }
    }
}

