//! C28: two indexes tell exactly what differs between two trees.
use std::collections::BTreeMap;
use std::fs::File;
use std::io::BufReader;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::rc::Rc;

use dir_signature::get_hash;
use dir_signature::v1::merge::FileMergeBuilder;
use dir_signature::v1::{Entry, Parser};

use crate::ctx::{Ctx, Prop, R};
use crate::gen::{self, describe};
use crate::io::chunks;
use crate::io::Src;
use crate::model::*;
use crate::props::ident::covered;
use crate::props::parse::{key, kkey, Key};
use crate::props::util::*;
use crate::shim::Bypass;
use crate::{ensure, fail};

pub static C28: Prop = Prop {
    id: "C28", level: "exploration",
    rule: "each case makes two trees, the second by changes of the first or overlapping with it, scans both under random conditions, merges the index files, and compares the differences found with those of the trees: paths in one only, paths in both that are equal or not; each file of the second is verified against the digests of the first; the differences are applied to a copy of the first tree, whose scan must then give the index of the second; non-trivial when the trees differ, distinct by pair and configuration",
    quick: 3000, thorough: 90000, quick_s: 40, thorough_s: 600, run: c28,
    assumptions: &["blake3 only with threads and not for verification (K1, see C02 and C13)"],
    need: &["differences found", "equal entries", "files verified", "files grown or shrunk by blocks", "trees brought up to date", "lookups", "of them by worker threads"],
};

fn flat(m: &Merged) -> BTreeMap<Key, Option<What>> {
    let mut v = BTreeMap::new();
    m.walk(&mut Vec::new(), &mut |p, m| {
        v.insert(key(true, p), None);
        for e in &m.entries {
            let mut q = if p == b"/" { vec![] } else { p.to_vec() };
            q.push(b'/');
            q.extend_from_slice(&e.name);
            v.insert(key(false, &q), Some(e.what.clone()));
        }
    });
    v
}

/// Equality of paths has `./` and `.//` equal, which are different targets
fn same_entry(x: &Entry, y: &Entry) -> bool {
    x == y && match (x, y) {
        (Entry::Link(_, a), Entry::Link(_, b)) => a.as_os_str() == b.as_os_str(),
        _ => true,
    }
}

fn alike(x: &Option<Entry>, y: &Option<Entry>) -> bool {
    match (x, y) {
        (Some(x), Some(y)) => same_entry(x, y),
        (x, y) => x.is_none() && y.is_none(),
    }
}

fn on_disk(base: &Path, p: &Path) -> PathBuf { base.join(p.strip_prefix("/").unwrap_or(p)) }

fn c28(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let mut k = knobs(&mut rng);
    k.nodes = *rng.pick(&[2usize, 8, 20, 50]);
    k.max_depth = k.max_depth.min(8);
    k.max_file = k.max_file.min(70_000);
    k.modes = false;
    // hard links tie files together which the changes below treat one by one
    k.hard = false;
    let mut a = gen::tree(&mut rng, &k);
    let grows = rng.chance(1, 5);
    if grows {
        let n = gen::name(&mut rng, 20, &a);
        let l = BS as usize * rng.range(1, 3) as usize - if rng.chance(1, 4) { 1 } else { 0 };
        a.insert(n, Node::File { data: Rc::new(gen::content(&mut rng, l)), mode: 0o644, hard: 0 });
    }
    let a = a;
    let mut b = match rng.below(6) {
        0 => a.clone(),
        1 => gen::overlapping(&mut rng, &a, &k),
        2 => { let n = gen::tree(&mut rng, &k); n }
        _ => { let mut t = a.clone(); for _ in 0..rng.range(1, 6) { covered(&mut rng, &mut t); } t }
    };
    // longer or shorter by whole blocks, with the same bytes or a repetition at the end
    if grows {
        let mut n = 0;
        for (_, x) in b.iter_mut() {
            if let Node::File { data, .. } = x {
                let mut v = data.to_vec();
                let add = BS as usize * rng.range(1, 3) as usize;
                match rng.below(4) {
                    0 => v.truncate(v.len().saturating_sub(add)),
                    1 => v.resize(v.len() + add, 0),
                    2 => { let m = gen::content(&mut rng, add); v.extend_from_slice(&m); }
                    _ => { let m = v[..v.len().min(add)].to_vec(); v.extend_from_slice(&m); }
                }
                *data = Rc::new(v);
                n += 1;
                if n == 4 { break; }
            }
        }
        cx.count("files grown or shrunk by blocks", n);
    }
    let h = *rng.pick(&[H::Sha, H::B2, H::B2, H::B3]);
    let f = [put(cx, vec![a]), put(cx, vec![b])];
    let work = put(cx, f[0].trees.clone());
    let ixdir = cx.dir();
    let mut files = Vec::new();
    let mut outs = Vec::new();
    let mut what = String::new();
    for i in 0..2 {
        let mut c = cfg(&mut rng);
        c.h = h;
        c.progress = false;
        if h == H::B3 { if !cfg!(feature = "threads") { return Ok(()); } c.threads = c.threads.max(2); }
        let sess = conditions(&mut rng, true);
        let out = scan_ok(cx, &c, &f[i].roots, &sess)?;
        let p = ixdir.join(format!("ix{}", i));
        std::fs::write(&p, &out).expect("harness: index");
        what.push_str(&c.describe());
        what.push_str("; ");
        files.push(p);
        outs.push(out);
    }
    let model = [flat(&f[0].merged), flat(&f[1].merged)];
    let differ = model[0] != model[1];
    let ids: Vec<Vec<u8>> = match outs.iter().map(|o| get_hash(&mut std::io::Cursor::new(o))).collect() { Ok(v) => v, Err(e) => fail!("no identifier: {}", e) };
    ensure!((ids[0] != ids[1]) == differ, "the trees are {}, the identifiers are {} and {} ({})", if differ { "different" } else { "the same" }, hex(&ids[0]), hex(&ids[1]), what);

    let mut mb = FileMergeBuilder::new();
    for i in 0..2 { mb.add(&f[i].roots[0].0, &files[i]); }
    let mut m = match mb.finalize() { Ok(m) => m, Err(e) => fail!("the indexes of two scans do not merge: {}", e) };
    let mut todo: Vec<(Key, Option<Entry>, Option<Entry>)> = Vec::new();
    let mut it = m.iter();
    while let Some(g) = it.next() {
        let mut two: [Option<Entry>; 2] = [None, None];
        let mut kk = None;
        for (base, e) in g {
            let i = match (0..2).find(|i| f[*i].roots[0].0 == *base) { Some(i) => i, None => fail!("unknown base path {:?}", base) };
            let e = match e { Ok(e) => e, Err(e) => fail!("index {}: {}", i, e) };
            ensure!(two[i].is_none(), "two entries of one index in a group: {:?}", e.path());
            let q = kkey(&e.kind().cloned());
            if let Some(ref w) = kk { ensure!(*w == q, "a group of different paths: {:?}", e.path()); }
            kk = Some(q);
            two[i] = Some(e);
        }
        let kk = match kk { Some(k) => k, None => fail!("an empty group") };
        let [x, y] = two;
        todo.push((kk, x, y));
        ensure!(todo.len() <= model[0].len() + model[1].len(), "too many groups ({})", what);
    }
    cx.eval();
    // the differences
    let mut seen: BTreeMap<Key, bool> = BTreeMap::new();
    for (k, x, y) in &todo {
        ensure!(seen.insert(k.clone(), x == y).is_none(), "path {:?} comes twice ({})", k, what);
        for (i, e) in [x, y].iter().enumerate() {
            ensure!(e.is_some() == model[i].contains_key(k), "path {:?} is {} tree {} by the merged indexes ({})", show_key(k), if e.is_some() { "in" } else { "not in" }, i, what);
        }
        let same = model[0].get(k) == model[1].get(k);
        ensure!(alike(x, y) == same, "path {:?} is {} in the trees, {} by the merged indexes ({})", show_key(k), if same { "the same" } else { "different" }, if alike(x, y) { "the same" } else { "different" }, what);
        cx.count(if same { "equal entries" } else { "differences found" }, 1);
    }
    for (i, m) in model.iter().enumerate() {
        if let Some(k) = m.keys().find(|k| !seen.contains_key(*k)) { fail!("path {:?} of tree {} does not come ({})", show_key(k), i, what); }
    }
    // files of the second against the digests of the first
    let _by = Bypass::new();
    if h != H::B3 {
        for (k, x, y) in &todo {
            if let (Some(Entry::File { hashes, size, .. }), Some(e @ Entry::File { .. })) = (x, y) {
                let (va, vb) = match (&model[0][k], &model[1][k]) { (Some(What::File { data: va, .. }), Some(What::File { data: vb, .. })) => (va, vb), _ => fail!("{:?} is a file in the index only", show_key(k)) };
                let p = on_disk(&f[1].roots[0].0, e.path());
                let file = match File::open(&p) { Ok(f) => f, Err(e) => panic!("harness: {:?}: {}", p, e) };
                let ok = match hashes.check_file(file) { Ok(x) => x, Err(e) => fail!("verifying {:?}: {}", show_key(k), e) };
                ensure!(*size == va.len() as u64, "size of {:?}", show_key(k));
                ensure!(ok == (va == vb), "{:?}: verified against the other index: {}, contents equal: {} ({})", show_key(k), ok, va == vb, what);
                cx.count("files verified", 1);
            }
        }
    }
    // entries of one looked up in the other
    let mut p = match Parser::new(BufReader::new(File::open(&files[0]).expect("harness: open"))) { Ok(p) => p, Err(e) => fail!("{}", e) };
    let mut it = p.iter();
    for (k, x, y) in &todo {
        let y = match y { Some(y) => y, None => continue };
        if rng.chance(1, 3) { continue; }
        let got = it.advance(&y.kind().cloned());
        match (got, x) {
            (None, None) => {}
            (Some(Ok(ref e)), Some(x)) if same_entry(e, x) => {}
            (ref g, _) => fail!("{:?} is {} the first index, looking it up gives {:?} ({})", show_key(k), if x.is_some() { "in" } else { "not in" }, g.as_ref().map(|r| r.as_ref().map(|e| e.path().to_path_buf()).map_err(|e| e.to_string())), what),
        }
        cx.count("lookups", 1);
    }
    drop(it);
    // and in memory, in pieces
    let ch = chunks(&mut rng);
    match Parser::new(Src::new(&outs[1], ch)) {
        Ok(mut p) => { let n = p.iter().filter(|r| r.is_ok()).count(); ensure!(n == model[1].len(), "{} entries of {}", n, model[1].len()); }
        Err(e) => fail!("{}", e),
    }
    // bring the copy of the first up to date
    let base = &work.roots[0].0;
    let src = &f[1].roots[0].0;
    let gone = |p: &Path| {
        match std::fs::symlink_metadata(p) {
            Ok(m) if m.is_dir() => gen::remove_tree(p),
            Ok(_) => std::fs::remove_file(p).expect("harness: remove"),
            Err(_) => {}
        }
    };
    for (_, x, y) in todo.iter().rev() { if let (Some(x), None) = (x, y) { gone(&on_disk(base, x.path())); } }
    for (_, x, y) in &todo {
        if alike(x, y) { continue; }
        let y = match y { Some(y) => y, None => continue };
        let to = on_disk(base, y.path());
        // what an index does not tell of may be in the way
        gone(&to);
        match y {
            Entry::Dir(_) => std::fs::create_dir(&to).expect("harness: mkdir"),
            Entry::Link(_, t) => std::os::unix::fs::symlink(t, &to).expect("harness: symlink"),
            Entry::File { exe, .. } => {
                let from = on_disk(src, y.path());
                let data = match std::fs::read(&from) { Ok(d) => d, Err(e) => panic!("harness: {:?}: {}", from, e) };
                std::fs::write(&to, data).expect("harness: write");
                std::fs::set_permissions(&to, std::fs::Permissions::from_mode(if *exe { 0o755 } else { 0o644 })).expect("harness: chmod");
            }
        }
    }
    drop(_by);
    let mut c = cfg(&mut rng);
    c.h = h;
    c.progress = false;
    if h == H::B3 { c.threads = c.threads.max(2); }
    let out = scan_ok(cx, &c, &work.roots, &crate::shim::Sess::new())?;
    ensure!(out == outs[1], "the first tree with the differences applied is not the second: {} ({})", diff(&out, &outs[1]), what);
    cx.count("trees brought up to date", 1);
    if differ { cx.nontrivial(fingerprint(&f[0].merged, "") ^ fingerprint(&f[1].merged, &what)); }
    cx.sample(|| format!("{} -> {}; {} groups; {}", describe(&f[0].merged), describe(&f[1].merged), todo.len(), what));
    Ok(())
}

fn show_key(k: &Key) -> String {
    let mut v = Vec::new();
    for c in &k.0 { v.push(b'/'); v.extend_from_slice(c); }
    if k.1 == 1 { v.push(b'/'); v.extend_from_slice(&k.2); format!("entry {}", show(&v)) } else { format!("directory {}", show(&v)) }
}
