//! C25: the documented shell procedure gives the same index.
use std::process::{Command, Stdio};
use std::rc::Rc;

use crate::ctx::{Ctx, Prop, R};
use crate::gen::{self, describe};
use crate::io::Sink;
use crate::model::*;
use crate::props::util::*;
use crate::rng::Rng;
use crate::shim::Bypass;
use crate::{ensure, fail};

pub static C25: Prop = Prop {
    id: "C25", level: "exploration",
    rule: "random trees with the names the shell procedure can handle (printable ASCII without space and backslash, all sorts of punctuation and siblings that sort around the slash), files around block borders, links, pipes and sockets; hash.sh of the repository is run on them by bash with openssl, shasum or b2sum and its output compared byte by byte with that of a scan; the digest lines are then checked the other way round, from the scanned index with dd, tail and the hash command; non-trivial when the tree has an entry, distinct by tree and configuration",
    quick: 900, thorough: 20000, quick_s: 45, thorough_s: 600, run: c25,
    assumptions: &["bash, coreutils, find, openssl, shasum and b2sum work", "no shell tool for blake3 is installed: that hash is left to C02 and C04", "hash.sh takes a file as executable when the caller may execute it; the files here are executable for all of owner, group and others or have modes where that agrees"],
    need: &["indexes compared", "runs with the defaults", "digests checked by shell", "of them by worker threads", "directories compared"],
};

fn plain_name(rng: &mut Rng, d: &Dir) -> Vec<u8> {
    for _ in 0..20 {
        let n: Vec<u8> = match rng.below(6) {
            0 => rng.pick(&[&b"a"[..], b"b", b"src", b"lib.rs", b"README.md", b"x", b"f", b"s", b"bin", b"etc", b"Makefile", b"node_modules", b".git", b".hidden"]).to_vec(),
            1 => rng.pick(&[&b"-"[..], b"--", b"-n", b"-e", b"-rf", b"...", b"..a", b".a", b"~", b"#a#", b"$HOME", b"*", b"?", b"[a]", b"'", b"\"", b"`id`", b";", b"&", b"|", b"!", b"(a)", b"{a,b}", b"%s", b"a~", b"=", b"a=b"]).to_vec(),
            2 | 3 if !d.is_empty() => {
                let k = rng.us(d.len());
                let mut v = d.keys().nth(k).unwrap().clone();
                if rng.chance(1, 3) && v.len() > 1 { v.pop(); } else { v.push(*rng.pick(b"!-.+,0a~A:_")); }
                v
            }
            4 => { let l = rng.range(1, 30) as usize; (0..l).map(|_| rng.range(0x21, 0x7e) as u8).collect() }
            _ => format!("{}{}", rng.pick(&["a", "A", "dir", "file", "0", "1", "x-"]), rng.below(30)).into_bytes(),
        };
        let n: Vec<u8> = n.into_iter().map(|c| if c == b'/' || c == b'\\' { b'_' } else { c }).collect();
        if n.is_empty() || n == b"." || n == b".." || n.len() > 200 || d.contains_key(&n) { continue; }
        return n;
    }
    format!("n{}", d.len()).into_bytes()
}

fn tree(rng: &mut Rng, left: &mut usize, depth: usize, max: usize) -> Dir {
    let mut d = Dir::new();
    let n = rng.range(if depth == 0 { 1 } else { 0 }, 9);
    for _ in 0..n {
        if *left == 0 { break; }
        *left -= 1;
        let nm = plain_name(rng, &d);
        let node = match rng.below(20) {
            0..=6 if depth < 6 => Node::Dir(tree(rng, left, depth + 1, max), 0o755),
            0..=9 => Node::Link(match rng.below(4) {
                0 => b"..".to_vec(),
                1 => b"/does/not/exist".to_vec(),
                2 if !d.is_empty() => { let k = rng.us(d.len()); d.keys().nth(k).unwrap().clone() }
                _ => { let l = rng.range(1, 60) as usize; (0..l).map(|_| match rng.range(0x21, 0x7e) as u8 { b'\\' => b'/', c => c }).collect() }
            }),
            10 => if rng.chance(1, 2) { Node::Fifo } else { Node::Socket },
            _ => {
                let s = gen::size(rng, max);
                Node::File { data: Rc::new(gen::content(rng, s)), mode: *rng.pick(&[0o644u32, 0o644, 0o755, 0o755, 0o700, 0o600, 0o444, 0o555, 0o750, 0o711, 0o666, 0o777]), hard: 0 }
            }
        };
        d.insert(nm, node);
    }
    d
}

fn sh(script: &str, args: &[&str], env: &[(&str, &str)]) -> std::process::Output {
    let mut c = Command::new("bash");
    c.env_clear();
    c.env("PATH", std::env::var_os("PATH").unwrap_or_else(|| "/usr/bin:/bin".into())).env("LC_ALL", "C");
    for (k, v) in env { c.env(k, v); }
    if script.is_empty() { c.arg("-e"); } else { c.args(["-e", "-c", script, "sh"]); }
    c.args(args).stdin(Stdio::null()).output().expect("harness: bash")
}

/// Each digest of an index again, with dd and the hash command; prints how many
const VERIFY: &str = r#"
index=$1; dir=$2; bs=$3
body=$(sed '1d;$d' "$index" | $HASH_CMD | cut -c1-64)
[ "$body" = "$(tail -n 1 "$index")" ] || { echo "footer: $body"; exit 1; }
cur=; n=0
set -f
while IFS= read -r line; do
  case $line in
    DIRSIGNATURE*) ;;
    /*) cur=$line; [ -d "$dir$cur" ] || { echo "no directory: $line"; exit 1; } ;;
    "  "*)
      set -- $line
      name=$1; kind=$2
      case $kind in
        s) [ "$(readlink "$dir$cur/$name")" = "$3" ] || { echo "link: $line"; exit 1; } ;;
        *) size=$3; shift 3
           [ "$(stat --format %s "$dir$cur/$name")" = "$size" ] || { echo "size: $line"; exit 1; }
           [ $(( (size + bs - 1) / bs )) = $# ] || { echo "digests: $line"; exit 1; }
           i=0
           for h; do
             got=$(dd if="$dir$cur/$name" skip=$i bs=$bs count=1 status=none | $HASH_CMD | cut -c1-64)
             [ "$got" = "$h" ] || { echo "block $i: $line"; exit 1; }
             i=$((i + 1)); n=$((n + 1))
           done ;;
      esac ;;
  esac
done < "$index"
echo "ok $n"
"#;

fn c25(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let mut left = *rng.pick(&[1usize, 6, 15, 30, 60]);
    let max = *rng.pick(&[100usize, 40_000, 150_000]);
    let t = if cx.idx == 0 { Dir::new() } else { tree(&mut rng, &mut left, 0, max) };
    let f = put(cx, vec![t]);
    let mut c = cfg(&mut rng);
    c.h = *rng.pick(&[H::Sha, H::B2]);
    let sess = conditions(&mut rng, true);
    let mut s = Sink::plain();
    if let Err(e) = scan(cx, &c, &f.roots, &mut s, &sess)? { fail!("scan fails: {} ({})", e, c.describe()); }
    let dir = f.roots[0].0.to_str().unwrap().to_string();
    let cmd = match c.h {
        H::B2 => "b2sum -l 256",
        _ => if cx.idx % 10 == 1 { "shasum -a 512256" } else { "openssl dgst -sha512-256 -r" },
    };
    let mut env = vec![("HASH_CMD", cmd)];
    if c.h == H::B2 { env.push(("HASH_NAME", "blake2b/256")); }
    // what the script has for itself
    let mut given = env.clone();
    if cmd.starts_with("shasum") && rng.chance(1, 2) { given.clear(); cx.count("runs with the defaults", 1); }
    if rng.chance(1, 3) { given.push(("BLOCK_SIZE", "32768")); }
    if rng.chance(1, 3) { given.push(("HASH_BYTES", "64")); }
    if rng.chance(1, 3) { given.push(("LC_ALL", *rng.pick(&["C.utf8", "POSIX", ""]))); }
    let script = crate::runner::verif_dir().join("../repo/hash.sh");
    let _by = Bypass::new();
    let o = match rng.below(4) {
        // below it, or given with a slash
        0 => sh("cd \"$1\"; shift; exec bash -e \"$@\"", &[&dir, script.to_str().unwrap()], &given),
        1 => sh("", &[script.to_str().unwrap(), &format!("{}/", dir)], &given),
        _ => sh("", &[script.to_str().unwrap(), &dir], &given),
    };
    cx.eval();
    ensure!(o.status.success() && o.stderr.is_empty(), "hash.sh fails: {} ({})", String::from_utf8_lossy(&o.stderr), describe(&f.merged));
    ensure!(o.stdout == s.data, "the scan and hash.sh differ: {} ({}; {})", diff(&s.data, &o.stdout), describe(&f.merged), c.describe());
    cx.count("indexes compared", 1);
    cx.count("directories compared", f.merged.size().0 as u64);
    cx.count("entries compared", f.merged.size().1 as u64);
    cx.seen("hash command", cmd);
    if cx.idx % 4 == 0 && c.h != H::B3 {
        let p = cx.dir().join("index");
        std::fs::write(&p, &s.data).expect("harness: index");
        let o = sh(VERIFY, &[p.to_str().unwrap(), &dir, "32768"], &env);
        cx.eval();
        let t = String::from_utf8_lossy(&o.stdout).into_owned();
        match t.trim().strip_prefix("ok ").and_then(|n| n.parse::<u64>().ok()) {
            Some(n) if o.status.success() => cx.count("digests checked by shell", n),
            _ => fail!("the index does not stand the check by shell: {} {} ({}; {})", t.trim(), String::from_utf8_lossy(&o.stderr), describe(&f.merged), c.describe()),
        }
    }
    if f.merged.size().1 > 0 { cx.nontrivial(fingerprint(&f.merged, &c.describe())); }
    cx.sample(|| format!("{}; {}; {}", describe(&f.merged), c.describe(), cmd));
    Ok(())
}
