//! C27: the index identifies the tree.
use std::collections::BTreeMap;
use std::rc::Rc;

use dir_signature::get_hash;

use crate::ctx::{Ctx, Prop, R};
use crate::gen::{self, describe};
use crate::io::Sink;
use crate::model::*;
use crate::props::scan::restamp;
use crate::props::util::*;
use crate::rng::{hash_bytes, Rng};
use crate::{ensure, fail};

pub static C27: Prop = Prop {
    id: "C27", level: "exploration",
    rule: "each case makes a family of trees from one: single changes of what an index covers (a bit, a byte more or less, the executable bit, a name, a target, an entry added, removed, moved, exchanged or turned into another kind, names and targets made up to look like lines or escapes of others) and of what it does not (times, owners, other permissions, hard links, pipes and sockets, order of creation, the tree spread over several sources; the same sources with names in common again); all are scanned under the same hash type and their indexes and identifiers compared pairwise: equal exactly if the covered parts are; non-trivial always, distinct by family and configuration",
    quick: 2500, thorough: 75000, quick_s: 40, thorough_s: 600, run: c27,
    assumptions: &["no digest collisions"],
    need: &["pairs that differ", "pairs that are the same", "of them by worker threads", "trees spread over sources", "sources with names in common"],
};

type Path = Vec<Vec<u8>>;

fn paths(d: &Dir, at: &mut Path, v: &mut Vec<Path>) {
    for (n, x) in d {
        at.push(n.clone());
        v.push(at.clone());
        if let Node::Dir(s, _) = x { paths(s, at, v); }
        at.pop();
    }
}

fn dir_at<'a>(d: &'a mut Dir, p: &[Vec<u8>]) -> &'a mut Dir {
    match p.split_first() {
        None => d,
        Some((n, rest)) => match d.get_mut(n) { Some(Node::Dir(s, _)) => dir_at(s, rest), _ => panic!("harness: no directory") },
    }
}

fn file(data: &[u8], mode: u32) -> Node { Node::File { data: Rc::new(data.to_vec()), mode, hard: 0 } }

/// One change; what was done
pub fn covered(rng: &mut Rng, t: &mut Dir) -> String {
    let mut ps = Vec::new();
    paths(t, &mut Vec::new(), &mut ps);
    let any_dir = |rng: &mut Rng, t: &mut Dir| -> Path {
        let mut v: Vec<Path> = vec![vec![]];
        for p in &ps { if let Some(Node::Dir(..)) = dir_at(t, &p[..p.len() - 1]).get(&p[p.len() - 1]) { v.push(p.clone()); } }
        rng.pick(&v).clone()
    };
    if ps.is_empty() || rng.chance(1, 4) {
        let p = any_dir(rng, t);
        let d = dir_at(t, &p);
        let n = gen::name(rng, 60, d);
        let what = match rng.below(4) {
            0 => { d.insert(n, Node::Dir(Dir::new(), 0o755)); "an empty directory more" }
            1 => { let g = gen::target(rng, d); d.insert(n, Node::Link(g)); "a link more" }
            2 => { d.insert(n, file(b"", 0o644)); "an empty file more" }
            _ => { d.insert(n, file(b"x", 0o755)); "a file more" }
        };
        return what.into();
    }
    let p = rng.pick(&ps).clone();
    let (name, up) = p.split_last().unwrap();
    let kind = rng.below(16);
    match kind {
        0 => { dir_at(t, up).remove(name); return "removed".into(); }
        1 => {
            let d = dir_at(t, up);
            let x = d.remove(name).unwrap();
            let n = gen::name(rng, 80, d);
            d.insert(n, x);
            return "renamed".into();
        }
        2 => {
            // moved elsewhere
            let x = dir_at(t, up).get(name).unwrap().clone();
            if let Node::Dir(..) = x {} else {
                let q = any_dir(rng, t);
                if dir_at(t, &q).contains_key(name) { return "nothing".into(); }
                dir_at(t, up).remove(name);
                dir_at(t, &q).insert(name.clone(), x);
                return "moved".into();
            }
        }
        3 => {
            // a directory pulled up
            let x = dir_at(t, up).get(name).unwrap().clone();
            if let Node::Dir(s, _) = x {
                let d = dir_at(t, up);
                for (n, y) in s { d.entry(n).or_insert(y); }
                return "contents moved up".into();
            }
        }
        4 => {
            // exchange with a sibling
            let d = dir_at(t, up);
            let ns: Vec<Vec<u8>> = d.keys().cloned().collect();
            let o = rng.pick(&ns).clone();
            let (x, y) = (d[name].clone(), d[&o].clone());
            d.insert(name.clone(), y);
            d.insert(o, x);
            return "exchanged".into();
        }
        5 => {
            // names that look like the lines of two entries
            let d = dir_at(t, up);
            let o = gen::name(rng, 0, d);
            let mut n = name.clone();
            n.extend_from_slice(*rng.pick(&[&b" f 0\n  "[..], b" s x\n  ", b"\n", b"\\x0a", b" x 0 "]));
            n.extend_from_slice(&o);
            if n.len() <= 255 { d.remove(name); d.insert(n, file(b"", 0o644)); return "two names in one".into(); }
        }
        6 => {
            // the escaped form of a name as a name
            let d = dir_at(t, up);
            let mut n = Vec::new();
            escape(name, &mut n);
            if n == *name { n = name.iter().flat_map(|b| format!("\\x{:02x}", b).into_bytes()).collect(); }
            if n.len() <= 255 && !d.contains_key(&n) { let x = d.remove(name).unwrap(); d.insert(n, x); return "named by its escaped form".into(); }
        }
        7 => {
            // the other kind under the same name
            let d = dir_at(t, up);
            let new = match &d[name] {
                Node::File { data, .. } if !data.is_empty() && data.len() < 4000 && !data.contains(&0) && rng.chance(1, 2) => Node::Link(data.to_vec()),
                Node::File { .. } => Node::Dir(Dir::new(), 0o755),
                Node::Link(g) => file(&g.clone(), 0o644),
                Node::Dir(..) => file(b"", 0o644),
                x => x.clone(),
            };
            d.insert(name.clone(), new);
            return "of another kind".into();
        }
        _ => {}
    }
    let d = dir_at(t, up);
    match d.get_mut(name).unwrap() {
        Node::File { data, mode, hard } => {
            *hard = 0;
            let mut v = data.to_vec();
            let what = match rng.below(7) {
                0 => { *mode ^= 0o100; "executable or not" }
                1 => { v.push(0); "a zero byte more" }
                2 if !v.is_empty() => { v.pop(); "a byte less" }
                3 if v.len() > 32768 => { let n = v.len(); let i = rng.us(n / 32768) * 32768; if i + 65536 <= n { for j in 0..32768 { v.swap(i + j, i + 32768 + j); } } "blocks exchanged" }
                4 if !v.is_empty() => { let i = v.len() - 1; v[i] ^= 1 << rng.below(8); "a bit of the last byte" }
                _ if !v.is_empty() => { let i = rng.us(v.len()); v[i] ^= 1 << rng.below(8); "a bit" }
                _ => { v.push(b'a'); "no longer empty" }
            };
            *data = Rc::new(v);
            what.into()
        }
        Node::Link(g) => {
            match rng.below(6) {
                0 => g.push(b'/'),
                1 => { let l = g.len(); g[l - 1] = if g[l - 1] == b'a' { b'b' } else { b'a' } }
                2 if g.len() > 1 => { g.pop(); }
                3 => { let mut n = b"./".to_vec(); n.extend_from_slice(g); *g = n; }
                4 => g.push(b' '),
                _ => { let mut n = Vec::new(); escape(g, &mut n); if n == *g { n.push(b'\\'); } *g = n; }
            }
            if g.len() > 4095 { g.truncate(4095); }
            "another target".into()
        }
        Node::Dir(s, _) => {
            if s.is_empty() { s.insert(b"new".to_vec(), file(b"", 0o644)); } else { let k = s.keys().next().unwrap().clone(); s.remove(&k); }
            "another directory".into()
        }
        Node::Fifo | Node::Socket => { d.remove(name); "a pipe or socket less".into() }
    }
}

/// Changes the index does not cover, all over the tree
fn uncovered(rng: &mut Rng, d: &mut Dir) {
    if rng.chance(1, 3) { let n = gen::name(rng, 50, d); d.insert(n, if rng.chance(1, 2) { Node::Fifo } else { Node::Socket }); }
    for x in d.values_mut() {
        match x {
            Node::File { mode, hard: h, .. } => {
                *mode = (*mode & 0o100) | (rng.next() as u32 & 0o7677);
                // a copy instead of a link
                if rng.chance(1, 2) { *h = 0; }
            }
            Node::Dir(s, mode) => { *mode = *rng.pick(&[0o755u32, 0o700, 0o000, 0o1777, 0o2755, 0o555]); uncovered(rng, s); }
            _ => {}
        }
    }
}

/// The tree in several, together the same
fn spread(rng: &mut Rng, d: &Dir, n: usize) -> Vec<Dir> {
    let mut v = vec![Dir::new(); n];
    for (name, x) in d {
        match x {
            Node::Dir(s, m) => {
                let parts = spread(rng, s, n);
                let first = rng.us(n);
                for (i, p) in parts.into_iter().enumerate() {
                    if i == first || !p.is_empty() { v[i].insert(name.clone(), Node::Dir(p, *m)); }
                }
            }
            Node::File { data, mode, .. } => { v[rng.us(n)].insert(name.clone(), Node::File { data: data.clone(), mode: *mode, hard: 0 }); }
            x => { v[rng.us(n)].insert(name.clone(), x.clone()); }
        }
    }
    v
}

/// What an index covers, in a form that is different for different trees
fn key(m: &Merged) -> Vec<u8> {
    fn put(v: &mut Vec<u8>, b: &[u8]) { v.extend_from_slice(&(b.len() as u64).to_le_bytes()); v.extend_from_slice(b); }
    let mut v = Vec::new();
    m.walk(&mut Vec::new(), &mut |p, m| {
        v.push(b'd');
        put(&mut v, p);
        for e in &m.entries {
            match &e.what {
                What::File { exe, data } => { v.push(if *exe { b'x' } else { b'f' }); put(&mut v, &e.name); put(&mut v, data); }
                What::Link(t) => { v.push(b's'); put(&mut v, &e.name); put(&mut v, t); }
            }
        }
    });
    v
}

fn c27(cx: &mut Ctx) -> R {
    let mut rng = cx.rng.fork(2);
    let mut c = cfg(&mut rng);
    c.progress = false;
    let mut k = knobs(&mut rng);
    k.nodes = *rng.pick(&[0usize, 2, 6, 15, 40]);
    k.max_file = *rng.pick(&[20usize, 300, 70_000]);
    let base = if k.nodes == 0 { Dir::new() } else { gen::tree(&mut rng, &k) };
    let mut fam: Vec<(String, Vec<Dir>)> = vec![("the tree".into(), vec![base.clone()])];
    for _ in 0..rng.range(3, 8) {
        let mut t = base.clone();
        let mut what = covered(&mut rng, &mut t);
        if rng.chance(1, 5) { let w = covered(&mut rng, &mut t); what = format!("{}, {}", what, w); }
        fam.push((what, vec![t]));
    }
    for i in 0..rng.range(2, 4) {
        let (mut what, t) = { let x = rng.us(fam.len()); (fam[x].0.clone(), fam[x].1[0].clone()) };
        if i % 2 == 0 {
            let mut t = t;
            uncovered(&mut rng, &mut t);
            what.push_str(", modes, links, times, pipes");
            fam.push((what, vec![t]));
        } else {
            let n = rng.range(2, 4) as usize;
            what.push_str(", spread over sources");
            fam.push((what, spread(&mut rng, &t, n)));
            cx.count("trees spread over sources", 1);
        }
    }
    // sources with names in common, the same ones twice
    if rng.chance(1, 2) {
        let t = { let x = rng.us(fam.len()); fam[x].1[0].clone() };
        let o = if rng.chance(1, 4) { t.clone() } else { gen::overlapping(&mut rng, &t, &k) };
        for _ in 0..2 { fam.push(("overlapping sources".into(), vec![t.clone(), o.clone()])); }
        fam.push(("overlapping sources in another order".into(), vec![o, t]));
        cx.count("sources with names in common", 1);
    }
    let mut seen: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut by_key: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut outs: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    let mut fp = hash_bytes(c.describe().as_bytes());
    for (i, (what, trees)) in fam.iter().enumerate() {
        let f = put(cx, trees.clone());
        if rng.chance(1, 2) { for (p, _) in &f.roots { restamp(p, rng.next()); } }
        let sess = conditions(&mut rng, true);
        let mut s = Sink::plain();
        if let Err(e) = scan(cx, &c, &f.roots, &mut s, &sess)? { fail!("scan fails: {} ({}; {})", e, what, c.describe()); }
        let id = match get_hash(&mut std::io::Cursor::new(&s.data)) { Ok(x) => x, Err(e) => fail!("no identifier: {} ({})", e, what) };
        let k = key(&f.merged);
        fp = crate::rng::mix(fp ^ hash_bytes(&k));
        let mut text = s.data.clone();
        text.push(0);
        let first = by_key.get(&k).cloned();
        if let Some(j) = first {
            ensure!(outs[j].0 == s.data && outs[j].1 == id, "trees that are the same to an index have different ones: {:?} and {:?}: {} ({})", fam[j].0, what, diff(&s.data, &outs[j].0), c.describe());
            cx.count("pairs that are the same", 1);
        } else {
            if let Some(j) = seen.get(&text) { fail!("different trees have the same index: {:?} and {:?} ({}; {})", fam[*j].0, what, describe(&f.merged), c.describe()); }
            if let Some(j) = outs.iter().position(|o| o.1 == id) { fail!("different trees have the same identifier: {:?} and {:?} ({}; {})", fam[j].0, what, describe(&f.merged), c.describe()); }
            cx.count("pairs that differ", outs.len() as u64);
            by_key.insert(k, i);
            seen.insert(text, i);
        }
        for w in what.split(", ") { cx.seen("changes", w); }
        outs.push((s.data, id));
        // keep the scratch folder small
        for (p, _) in &f.roots { gen::remove_tree(p); }
    }
    cx.nontrivial(fp);
    cx.sample(|| format!("{:?}; {}", fam.iter().map(|f| f.0.as_str()).collect::<Vec<_>>(), c.describe()));
    Ok(())
}
