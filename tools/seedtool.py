#!/usr/bin/env python3
"""Work with planted bugs, in scratch copies under /tmp/sw only.

seedtool.py make FILE.py [ID..]   write seeded/<id>/ from definitions (a list SEEDS) and verify them
seedtool.py verify [ID..]         apply, build, run the stable tests, run the demo on both trees
seedtool.py check [-a] [ID..]     run the property's check (-a: every check but C22) against each bug
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
W = "/tmp/sw"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "VERIF_TIER"): ENV.pop(k, None)

DEMO = """#!/bin/bash
# exit 0: the tree is right; not 0: it is not. Run in the root of the repository.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS="--cap-lints allow" RUST_BACKTRACE=0
w=$(mktemp -d)
trap 'chmod -R u+rwx "$w"; rm -rf "$w"' EXIT
mkdir "$w/src" "$w/scratch"
cp "$here/demo.rs" "$w/src/main.rs"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$w/"; fi
cat >"$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
dir-signature = { path = "$repo" }
%s[workspace]
T
(cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q)
%stimeout 120 "$w/target/debug/demo" "$w/scratch"
"""
CLI = """(cd "$repo" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q --bin index)
export INDEX="$w/target/debug/index"
"""


def run(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stdout or b"").decode("utf-8", "replace")


def copy(dst, src=R):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    subprocess.check_call(["cp", "-a", src, dst])


def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    return set(d.get("stable") or d.get("passed") or d)


def tests(repo):
    """names of the tests that pass"""
    ok = set()
    e = dict(ENV, CARGO_TARGET_DIR=repo + "/target")
    for flags, prefix in (([], ""), (["--no-default-features"], "no-default-features/")):
        log = repo + "/../log"
        rc, out = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"] + flags + ["--", "--test-threads", "4"], repo, e, 600)
        open(log, "w").write(out)
        subprocess.check_call(["python3", "/opt/vp/results.py", log + ".json", "cargo:" + log], stdout=subprocess.DEVNULL)
        ok |= {prefix + n for n in json.load(open(log + ".json"))["passed"]}
    return ok


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    repo = os.path.join(W, s["id"], "repo")
    copy(repo)
    for path, old, new in s["edits"]:
        p = os.path.join(repo, path)
        t = open(p).read()
        if t.count(old) != 1:
            return "edit matches %d times: %r" % (t.count(old), old[:60])
        open(p, "w").write(t.replace(old, new))
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "diff"], cwd=repo).decode()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(s.get("demo_sh") or DEMO % (s.get("deps", ""), CLI if s.get("cli") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    if "demo" in s: open(d + "/demo.rs", "w").write(s["demo"].lstrip())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
    shutil.rmtree(os.path.join(W, s["id"]))
    return "made"


def demo(d, repo):
    where = repo + "/../demo"
    shutil.rmtree(where, ignore_errors=True)
    shutil.copytree(d, where, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = run(["bash", where + "/demo.sh"], repo, timeout=300)
    shutil.rmtree(where)
    return r


def verify(i):
    d = os.path.join(V, "seeded", i)
    repo = os.path.join(W, i, "repo")
    try:
        copy(repo)
        rc, out = demo(d, repo)
        if rc != 0: return "BAD demo fails on the unchanged tree (%s):\n%s" % (rc, out[-1500:])
        rc, out = run(["git", "apply", d + "/patch.diff"], repo)
        if rc != 0: return "BAD patch: " + out
        ok = tests(repo)
        missing = stable() - ok
        if missing: return "BAD tests fail: %s\n%s" % (sorted(missing)[:5], open(repo + "/../log").read()[-1500:])
        rc, out = demo(d, repo)
        if rc == 0: return "BAD demo passes with the patch"
        return "ok (%s) %s" % (rc, " | ".join(out.strip().splitlines()[-2:])[:300])
    finally:
        shutil.rmtree(os.path.join(W, i), ignore_errors=True)


def check(i, all_checks=False):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = os.path.join(W, i)
    res = []
    try:
        copy(w + "/repo")
        rc, out = run(["git", "apply", d + "/patch.diff"], w + "/repo")
        if rc != 0: return prop, "BAD patch: " + out
        os.makedirs(w + "/verif")
        for n in ("check.sh", "sanitize.py", "known_findings.txt", "harness", "san", "properties.jsonl"):
            subprocess.check_call(["cp", "-a", os.path.join(V, n), w + "/verif/"])
        e = dict(ENV, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        for p in [prop] + ([] if not all_checks else ["C%02d" % k for k in range(1, 29) if "C%02d" % k != prop and k != 22]):
            t = time.time()
            rc, out = run(["./check.sh", "run", p], w + "/verif", e, 900)
            v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + p)]
            st = "caught" if rc == 1 and v else "silent" if rc == 0 else "ERROR %s" % rc
            res.append((p, st, "%.0f s" % (time.time() - t), " / ".join(out.strip().splitlines()[-3:])[:400] if p == prop or st.startswith("E") else ""))
        return prop, res
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    jobs = int(os.environ.get("J", "4"))
    if cmd == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        seeds = [s for s in ns["SEEDS"] if not args[1:] or s["id"] in args[1:]]
        ids = []
        for s in seeds:
            r = make(s)
            print(s["id"], r, flush=True)
            if r == "made": ids.append(s["id"])
        cmd, args = "verify", ids
        if not ids: return
    every = "-a" in args
    args = [a for a in args if a != "-a"]
    ids = args or sorted(os.listdir(V + "/seeded"))
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs = {ex.submit(verify if cmd == "verify" else lambda i: check(i, every), i): i for i in ids}
        for f in cf.as_completed(fs):
            print(fs[f], f.result(), flush=True)


main()
