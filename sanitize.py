#!/usr/bin/env python3
"""C22: workloads under AddressSanitizer, ThreadSanitizer and Miri.

sanitize.py build                 build all of it
sanitize.py run                   build and decide C22
sanitize.py replay PHASE:SEED:CASE[:MIRISEED]
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, "target")
STRESS = os.path.join(V, "san", "stress", "Cargo.toml")
MIRI = os.path.join(V, "san", "miri", "Cargo.toml")
TRIPLE = "x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
JOBS = max(2, os.cpu_count() or 2)

ENV = dict(os.environ)
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
    ENV.pop(k, None)
ENV.update(RUSTUP_TOOLCHAIN="nightly-" + TRIPLE, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
           PATH="/root/.cargo/bin:" + os.environ["PATH"])
CAP = "--cap-lints warn"

# phase: what runs, with which flags, on which kinds of cases, for how many
# seconds (quick, thorough), cases per process
PHASES = {
    "asan": dict(kinds="01234567", secs=(20, 600), chunk=12, size="big"),
    "tsan": dict(kinds="01234567", secs=(30, 900), chunk=12, size="big"),
    # threads: the futures crate breaks the aliasing models, so these are off here
    "miri-threads": dict(kinds="0123", secs=(65, 1500), chunk=8, size="small", miri="-Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"),
    "miri-borrows": dict(kinds="4567", secs=(50, 900), chunk=8, size="small", miri="-Zmiri-ignore-leaks"),
}
PREEMPT = ["0.01", "0.05", "0.2", "0.5"]


def sh(cmd, env, what):
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        lines = p.stdout.splitlines()
        errs = [i for i, l in enumerate(lines) if l.startswith("error")]
        print("build failed: " + what)
        for i in errs[:5]:
            print("\n".join(lines[i:i + 10]))
        print("\n".join(lines[-5:]))
        return False
    return True


def patched_futures():
    """futures 0.1 without function pointers made of 1 and 2, which Miri refuses"""
    d = os.path.join(T, "futures-patched")
    home = os.environ.get("CARGO_HOME", "/root/.cargo")
    src = sorted(glob.glob(home + "/registry/src/*/futures-0.1.31"))
    if not src:  # unpack the cached archive
        c = sorted(glob.glob(home + "/registry/cache/*/futures-0.1.31.crate"))
        if not c:
            raise SystemExit("futures-0.1.31 is not in the cargo cache")
        os.makedirs(T, exist_ok=True)
        subprocess.check_call(["tar", "-xzf", c[0], "-C", T])
        src = [os.path.join(T, "futures-0.1.31")]
    tmp = d + ".new"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(src[0], tmp)
    p = tmp + "/src/task_impl/std/mod.rs"
    s = open(p).read()
    old = """        let get = mem::transmute::<usize, _>(0x1);
        let set = mem::transmute::<usize, _>(0x2);
        init(get, set);
"""
    assert old in s
    open(p, "w").write(s.replace(old, "        core::init_raw(0x1, 0x2);\n"))
    with open(tmp + "/src/task_impl/core.rs", "a") as f:
        f.write("""
pub unsafe fn init_raw(get: usize, set: usize) {
    if GET.compare_exchange(0, get, SeqCst, SeqCst).is_ok() {
        SET.store(set, SeqCst);
    }
}
""")
    same = os.path.isdir(d) and subprocess.run(["diff", "-rq", d, tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    if same:
        shutil.rmtree(tmp)
    else:
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)


def target(phase):
    return os.path.join(T, "san-" + ("miri" if phase.startswith("miri") else phase))


def build_one(kind, out):
    e = dict(ENV)
    if kind == "miri":
        patched_futures()
        ok = sh(["cargo", "miri", "setup"], e, "miri sysroot")
        # a run of no case builds everything
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        ok = ok and sh(["cargo", "miri", "run", "--manifest-path", MIRI, "--target-dir", target("miri"), "--", "0", "0", "0", "/nonexistent", "small"], e, "miri")
    else:
        e["RUSTFLAGS"] = CAP + " -Zsanitizer=" + {"asan": "address", "tsan": "thread"}[kind]
        cmd = ["cargo", "build", "--locked", "--manifest-path", STRESS, "--target", TRIPLE, "--target-dir", target(kind)]
        if kind == "tsan":
            cmd.append("-Zbuild-std")
        ok = sh(cmd, e, kind)
    out[kind] = ok


def build():
    out = {}
    os.makedirs(T, exist_ok=True)
    ts = [threading.Thread(target=build_one, args=(k, out)) for k in ("asan", "tsan", "miri")]
    for t in ts: t.start()
    for t in ts: t.join()
    return all(out.get(k) for k in ("asan", "tsan", "miri"))


def command(phase, seed, lo, hi, scratch, kinds, mseed, extra=""):
    p = PHASES[phase]
    e = dict(ENV)
    tail = [str(seed), str(lo), str(hi), scratch, p["size"], kinds]
    if phase.startswith("miri"):
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-seed=%d -Zmiri-preemption-rate=%s %s" % (mseed, PREEMPT[mseed % len(PREEMPT)], p["miri"])
        if phase == "miri-borrows" and mseed % 3 == 2:
            e["MIRIFLAGS"] += " -Zmiri-tree-borrows"
        return ["cargo", "miri", "run", "-q", "--manifest-path", MIRI, "--target-dir", target("miri"), "--"] + tail, e
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=67:detect_stack_use_after_return=1:strict_string_checks=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
    return [os.path.join(target(phase), TRIPLE, "debug", "stress")] + tail, e


REPORT = re.compile(
    r"(WARNING: ThreadSanitizer: .*|SUMMARY: ThreadSanitizer: .*|ERROR: AddressSanitizer: .*|error: Undefined Behavior: .*|"
    r"unsafe precondition\(s\) violated.*|misaligned pointer dereference.*|null pointer dereference occurred.*|"
    r"attempted to .* uninitialized.*|VH: a str that is not UTF-8.*)")


def judge(rc, text):
    """None, or what was detected; 'panic' etc. say nothing about this property"""
    m = REPORT.search(text)
    if m:
        w = m.group(1)
        if "stack-overflow" in w:
            return "other", w
        if "ThreadSanitizer: FATAL" in text or "ThreadSanitizer: unexpected memory mapping" in text:
            return "tool", w
        return "violation", w
    if rc == 0:
        return None, ""
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
        return "violation", "killed by signal %d" % -rc
    if "unsupported operation" in text:
        return "unsupported", re.search(r"unsupported operation.*", text).group(0)
    if "VH: " in text or "panicked at" in text:
        m = re.search(r"panicked at.*(\n.*)?", text)
        return "panic", m.group(0) if m else ""
    return "tool", "exit status %d: %s" % (rc, text[-400:])


class State:
    def __init__(self):
        self.lock = threading.Lock()
        self.next = 0
        self.counts, self.fps, self.traces, self.bad, self.notes, self.samples = {}, set(), set(), [], [], []
        self.procs = self.evals = self.other = self.tool = 0


def scratch_base():
    for p in ("/dev/shm", "/tmp"):
        try:
            d = tempfile.mkdtemp(prefix="vh.C22.", dir=p)
            return d
        except OSError:
            pass
    raise SystemExit("no scratch space")


def one(phase, seed, lo, hi, mseed, base, st, kinds=None, until=None):
    p = PHASES[phase]
    d = tempfile.mkdtemp(dir=base)
    cmd, e = command(phase, seed, lo, hi, d, kinds or p["kinds"], mseed)
    if until: e["VH_UNTIL"] = str(int(until))
    try:
        q = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
        rc, out, err = q.returncode, q.stdout.decode("utf-8", "replace"), q.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        rc, out, err = "timeout", (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace")
    shutil.rmtree(d, ignore_errors=True)
    done = re.findall(r"@done (\d+) ([0-9a-f]+)", out)
    cases = re.findall(r"@case (\d+)", err)
    at = int(cases[-1]) if cases else lo
    with st.lock:
        st.procs += 1
        st.evals += len(done)
        k = "%s cases" % phase
        st.counts[k] = st.counts.get(k, 0) + len(done)
        for n, fp in done:
            st.fps.add((phase, fp) if phase.startswith("miri") else fp)
        for m in re.finditer(r"(\w+)=(\d+)", "".join(re.findall(r"@seen (.*)", out))):
            if m.group(1) not in ("cases", "results") and m.group(2) != "0":
                k = "%s %s" % (phase, m.group(1))
                st.counts[k] = st.counts.get(k, 0) + int(m.group(2))
        for t in re.findall(r"@traces (.*)", out):
            st.traces.update(t.split())
        if len(st.samples) < 8 and done and (not st.samples or st.samples[-1].split(":")[0] != phase):
            st.samples.append("%s: seed %d cases %d..%d%s -> %s" % (phase, seed, lo, hi, " miri seed %d" % mseed if phase.startswith("miri") else "", (re.findall(r"@seen (.*)", out) or ["ended early"])[-1]))
    if rc == "timeout":
        with st.lock:
            st.other += 1
            st.notes.append("%s: case %d took more than 400 s" % (phase, at))
        return None, at, ""
    kind, what = judge(rc, err)
    if kind == "violation":
        with st.lock:
            st.bad.append((phase, seed, at, mseed, what, err))
    elif kind in ("panic", "other"):
        with st.lock:
            st.other += 1
            if len(st.notes) < 10:
                st.notes.append("%s: case %d ended with %s" % (phase, at, what[:300]))
    elif kind in ("tool", "unsupported"):
        with st.lock:
            st.tool += 1
            if len(st.notes) < 10:
                st.notes.append("%s: case %d: %s" % (phase, at, what[:500]))
    return kind, at, err


def phase_run(phase, secs, base, st, jobs):
    p = PHASES[phase]
    end = time.time() + secs
    ctr = [0]

    def work():
        while time.time() < end and len(st.bad) < 5:
            with st.lock:
                i = ctr[0]
                ctr[0] += 1
            lo = i * p["chunk"]
            hi = lo + p["chunk"]
            mseed = SEED * 1000 + i
            while lo < hi:
                kind, at, _ = one(phase, SEED, lo, hi, mseed, base, st, until=end)
                if kind in ("panic", "other"):
                    lo = at + 1  # the rest of the chunk
                else:
                    break
            if kind in ("tool",):
                return

    ts = [threading.Thread(target=work) for _ in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()


def run():
    t0 = time.time()
    if not build():
        return 2
    tb = time.time() - t0
    base = scratch_base()
    st = State()
    try:
        for phase in ("asan", "tsan", "miri-threads", "miri-borrows"):
            phase_run(phase, PHASES[phase]["secs"][TIER == "thorough"], base, st, JOBS)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    ok = True
    need = ["asan scans_ok", "asan scans_err", "asan parsed", "asan parse_errors", "asan merged", "asan emitted", "asan hashed", "tsan scans_ok", "tsan scans_err", "tsan files",
            "miri-threads scans_ok", "miri-threads events", "miri-borrows parsed", "miri-borrows cases"]
    missing = [n for n in need if not st.counts.get(n)]
    counts = dict(sorted(st.counts.items()))
    counts["distinct interleavings of file operations under miri"] = len(st.traces)
    counts["processes"] = st.procs
    ev = dict(property="C22", tier=TIER, seed=SEED, level="exploration", coverage=dict(
        evaluations=st.evals, distinct_nontrivial=len(st.fps),
        rule="cases of the stress program (scans with threads that succeed, fail to write, meet a changing tree, run several at once; parsing, seeking, get_hash on valid and mutated indexes; merging and emitting; hash_file and check_file) under AddressSanitizer, ThreadSanitizer (std instrumented too) and Miri with varying seeds and preemption rates; distinct by the bytes the case produced (under Miri per phase)",
        observed=counts, cases_ended_by_a_panic=st.other, notes=st.notes, samples=st.samples, build_s=round(tb, 1)),
        assumptions=["ThreadSanitizer and AddressSanitizer see the executions that ran; the C and assembly of blake3 are not instrumented",
                     "Miri runs the crate on a std::fs stand-in of openat, and with the aliasing models off when threads run (futures 0.1 breaks them)",
                     "undefined behaviour inside dependencies that the crate cannot trigger otherwise is theirs (futures 0.1 makes function pointers of integers)"],
        wall_s=round(time.time() - t0, 1), violations=len(st.bad))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", "C22.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("C22: %d cases, %d distinct, %d interleavings, %.0f s" % (st.evals, len(st.fps), len(st.traces), time.time() - t0))
    if st.bad:
        for i, (phase, seed, at, mseed, what, err) in enumerate(st.bad[:5]):
            rp = os.path.join(V, "evidence", "replay-C22-%d.txt" % i)
            with open(rp, "w") as f:
                f.write("./check.sh replay C22 %s:%d:%d:%d\n%s\n%s\n" % (phase, seed, at, mseed, what, err[-20000:]))
            print("  %s case %d: %s" % (phase, at, what[:400]))
            print("VIOLATION property=C22 replay=%s" % rp)
        return 1
    if missing or st.tool > 0:
        print("no verdict: %s" % (("nothing observed of " + ", ".join(missing)) if missing else ""))
        for n in st.notes: print("  " + n)
        return 2
    return 0


def replay(arg):
    a = arg.split(":")
    phase, seed, case, mseed = a[0], int(a[1]), int(a[2]), int(a[3]) if len(a) > 3 else 0
    if not build():
        return 2
    base = scratch_base()
    st = State()
    try:
        c = PHASES[phase]["chunk"]
        lo = case // c * c
        # the case alone, then with those before it, a few times
        for lo in [case, lo] * 3:
            kind, at, err = one(phase, seed, lo, case + 1, mseed, base, st)
            if kind == "violation":
                print(err[-6000:])
                print("VIOLATION property=C22 replay=%s" % arg)
                return 1
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print("not seen again")
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    sys.exit({"build": lambda: 0 if build() else 2, "run": run, "replay": lambda: replay(a[1])}[a[0]]())
