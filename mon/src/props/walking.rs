//! W01-W03: walks over trees of directories, sharded directories, files and symlinks.

use super::{Prop, EXPLORED, ORACLE};
use crate::drive::{walk, WLog, WalkRun};
use crate::model::{is_normal, lay_tree, root_name, Ev, Ink, Kind, Laid, Store, Tree, TreeGen};
use crate::pbo;
use crate::util::{fp, fp2, hex, Rng};
use crate::{ensure, same, Case, Fail, R};
use std::collections::HashMap;
use std::ffi::OsStr;
use std::path::{Component, Path, PathBuf};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "W01",
        title: "A walk reports every entry of a tree exactly once and correctly",
        run: w01,
        quick: 40000,
        rule: "random trees of plain and sharded directories, files and symlinks (nesting up to 6, up to ~60 nodes, one in 80 with nesting up to 120 or hundreds of entries, repeated subtrees, repeated names, odd encodings), walked under random root names and compared event by event with the expected sequence; non-trivial: at least two entries",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "W02",
        title: "Walk paths never leave the root and reflect single link names",
        run: w02,
        quick: 50000,
        rule: "half: random trees under ordinary and unusual root names, every reported path taken apart into components; half: one directory or shard link renamed to something which is not a single normal component, the walk has to fail before reporting it; non-trivial: at least one path below the root or one renamed link",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "W03",
        title: "File segments of a walk are framed correctly",
        run: w03,
        quick: 40000,
        rule: "trees with many multi-block files; a state machine follows the segments and their flags and collects the contents; non-trivial: at least one file of several blocks",
        assumptions: &[ORACLE, EXPLORED],
    },
];

fn depth(rng: &mut Rng) -> usize {
    *rng.pick(&[1, 2, 2, 3, 3, 4, 6])
}

fn differ(log: &WLog, want: &[Ev]) -> Option<String> {
    for (i, w) in want.iter().enumerate() {
        match log.steps.get(i) {
            Some(s) if s.ev == *w => {}
            Some(s) => {
                return Some(format!(
                    "step {} of {}: got {}, expected {}",
                    i,
                    want.len(),
                    s.ev.brief(),
                    w.brief()
                ))
            }
            None => {
                return Some(format!(
                    "the walk ends after {} of {} steps ({:?}), expected next {}",
                    i,
                    want.len(),
                    log.err,
                    w.brief()
                ))
            }
        }
    }
    if let Some(e) = &log.err {
        return Some(format!("error after the last entry: {:?}", e));
    }
    if log.steps.len() > want.len() {
        return Some(format!(
            "{} steps instead of {}, first extra {}",
            log.steps.len(),
            want.len(),
            log.steps[want.len()].ev.brief()
        ));
    }
    None
}

fn shape_key(events: &[Ev]) -> u64 {
    events.iter().fold(0, |h, e| {
        fp2(
            h,
            e.kind as u64 * 64 + e.path.components().count() as u64 * 4 + e.first as u64 * 2 + e.last as u64,
        )
    })
}

fn transitions(c: &mut Case, log: &WLog) {
    for w in log.steps.windows(2) {
        let (a, b) = (&w[0].ev, &w[1].ev);
        let da = a.path.components().count() as i64;
        let db = b.path.components().count() as i64;
        c.distinct(
            "kind transitions with depth change",
            (a.kind as u64) << 16 | (b.kind as u64) << 8 | (db - da + 50) as u64,
        );
    }
}

/// Gives one sibling the name of another one: still well-formed, entries are told apart by position.
fn duplicate_a_name(rng: &mut Rng, t: &mut Tree) {
    if let Tree::Dir { kids, .. } = t {
        if kids.len() > 1 && rng.bool() {
            let n = kids[0].0.clone();
            kids.last_mut().unwrap().0 = n;
        } else if !kids.is_empty() {
            let i = rng.idx(kids.len());
            duplicate_a_name(rng, &mut kids[i].1);
        }
    }
}

fn w01(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let mut gen = TreeGen::random(rng);
    gen.files_big = rng.one_in(6);
    let d = depth(rng);
    let mut tree = if rng.one_in(8) { gen.tree(rng, d) } else if rng.bool() { gen.dir(rng, d) } else { gen.hamt(rng, d) };
    if rng.one_in(80) {
        tree = gen.extreme(rng);
        c.add("very deep or wide trees", 1);
    }
    if rng.one_in(10) {
        duplicate_a_name(rng, &mut tree);
    }
    let root = root_name(rng);
    let ink = Ink::random(rng);
    let mut store = Store::default();
    let laid = lay_tree(rng, &ink, &mut store, &tree, &PathBuf::from(&root), true);
    c.describe(|| format!("root name {:?}, tree {:?}", root, tree));
    let log = walk(&store, &laid.cid, &root, &mut None, laid.events.len() + 3)?;
    if let Some(d) = differ(&log, &laid.events) {
        return Err(Fail(format!("root name {:?}: {}", root, d)));
    }
    for (s, w) in log.steps.iter().zip(&laid.events) {
        // equal as paths, but "a/./b" or "a//b" would be too
        ensure!(
            s.ev.path.as_os_str() == w.path.as_os_str(),
            "path {:?}, expected {:?}",
            s.ev.path,
            w.path
        );
    }
    let refs = 1 + laid_refs(&store, &laid.cid, &mut HashMap::new());
    same!(log.steps.len() as u64, refs, "blocks requested, against references to blocks");
    c.add("events compared", log.steps.len() as u64);
    for s in &log.steps {
        c.add(
            match s.ev.kind {
                Kind::Root => "root directory events",
                Kind::Dir => "directory events",
                Kind::Bucket => "bucket events",
                Kind::File => "file segment events",
                Kind::Symlink => "symlink events",
            },
            1,
        );
    }
    transitions(c, &log);
    c.max("most events in one walk", log.steps.len() as u64);
    c.distinct("shapes", shape_key(&laid.events));
    if log.steps.len() > 1 {
        c.counts(fp2(fp(&laid.cid), fp(root.as_bytes())));
    }
    Ok(())
}

/// How many references to blocks there are below this one.
fn laid_refs(store: &Store, cid: &[u8], memo: &mut HashMap<Vec<u8>, u64>) -> u64 {
    if let Some(n) = memo.get(cid) {
        return *n;
    }
    let kids = store.get(cid).map(pbo::children).unwrap_or_default();
    let n = kids.iter().map(|k| 1 + laid_refs(store, k, memo)).sum();
    memo.insert(cid.to_vec(), n);
    n
}

const ODD_ROOTS: &[&str] = &[
    "", "a", "/", "/a", "/a/b", "a/b/c", "./a", "..", ".", "a/", "../x", "a/../b", "日本", " ", "a b/c", "a\u{0}b", "-",
    "FA", "very/deep/root/name/with/many/parts",
];

/// Path of the reported event: the root's components, then single normal components.
fn take_apart(root: &Path, names: &[&str], got: &Path) -> R {
    let mut want: Vec<Component<'_>> = root.components().collect();
    let n = want.len();
    want.extend(names.iter().map(|s| Component::Normal(OsStr::new(*s))));
    let have: Vec<Component<'_>> = got.components().collect();
    ensure!(
        have == want,
        "path {:?} is not the root {:?} followed by {:?}",
        got,
        root,
        &names
    );
    for x in &have[n..] {
        ensure!(
            matches!(x, Component::Normal(_)),
            "path {:?} has the component {:?} below the root",
            got,
            x
        );
    }
    Ok(())
}

/// The names on the way down to every event, in order.
fn name_chains<'t>(t: &'t Tree, at: &mut Vec<&'t str>, out: &mut Vec<Vec<&'t str>>) {
    match t {
        Tree::File { dag, .. } => {
            for _ in 0..dag.count() {
                out.push(at.clone());
            }
        }
        Tree::Symlink { .. } => out.push(at.clone()),
        Tree::Dir { kids, .. } => {
            out.push(at.clone());
            for (n, k) in kids {
                at.push(n);
                name_chains(k, at, out);
                at.pop();
            }
        }
        Tree::Hamt { root, .. } => shard_chains(root, at, out),
    }
}

fn shard_chains<'t>(s: &'t crate::model::Shard, at: &mut Vec<&'t str>, out: &mut Vec<Vec<&'t str>>) {
    use crate::model::Slot;
    out.push(at.clone());
    for (_, slot) in &s.slots {
        match slot {
            Slot::Entry(n, t) => {
                at.push(n);
                name_chains(t, at, out);
                at.pop();
            }
            Slot::Bucket(b) => shard_chains(b, at, out),
        }
    }
}

fn w02(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let mut gen = TreeGen::random(rng);
    gen.share = false;
    let d = depth(rng);
    let mut tree = if rng.bool() { gen.dir(rng, d) } else { gen.hamt(rng, d) };
    if rng.one_in(100) {
        tree = gen.extreme(rng);
        c.add("very deep or wide trees", 1);
    }
    let root = match rng.below(3) {
        0 => rng.pick(ODD_ROOTS).to_string(),
        1 => {
            let n = rng.usize(1, 5);
            let parts: Vec<&str> = (0..n).map(|_| *rng.pick(&["a", "b", ".", "..", "", "c d", "é", "..."])).collect();
            parts.join("/")
        }
        _ => root_name(rng),
    };
    let ink = Ink::random(rng);
    let mut store = Store::default();
    let laid = lay_tree(rng, &ink, &mut store, &tree, &PathBuf::from(&root), true);
    c.describe(|| format!("root name {:?}, tree {:?}", root, tree));
    if rng.bool() {
        let log = walk(&store, &laid.cid, &root, &mut None, laid.events.len() + 3)?;
        ensure!(log.err.is_none(), "root name {:?}: the walk fails: {:?}", root, log.err);
        let mut chains = Vec::new();
        name_chains(&tree, &mut Vec::new(), &mut chains);
        same!(log.steps.len(), chains.len(), "number of steps");
        for (s, names) in log.steps.iter().zip(&chains) {
            take_apart(Path::new(&root), names, &s.ev.path)?;
        }
        c.add("paths taken apart", log.steps.len() as u64);
        c.distinct("root names", fp(root.as_bytes()));
        if log.steps.len() > 1 {
            c.counts(fp2(fp(&laid.cid), fp(root.as_bytes())));
        }
        return Ok(());
    }
    bad_name(c, rng, store, &laid, &root)
}

fn bad_name(c: &mut Case, rng: &mut Rng, mut store: Store, laid: &Laid, root: &str) -> R {
    let kinds = [Kind::Root, Kind::Dir, Kind::Bucket];
    let mut dirs: Vec<(usize, usize)> = Vec::new();
    for (i, e) in laid.events.iter().enumerate() {
        if kinds.contains(&e.kind) && laid.events.iter().position(|x| x.block == e.block) == Some(i) {
            let n = pbo::children(store.get(&e.block).unwrap()).len();
            for l in 0..n {
                dirs.push((i, l));
            }
        }
    }
    if dirs.is_empty() {
        return Ok(());
    }
    let (p, nth) = *rng.pick(&dirs);
    let block_cid = laid.events[p].block.clone();
    let block = store.get(&block_cid).unwrap().to_vec();
    let (mut node, _) = pbo::dec_node(&block).map_err(|_| Fail::new("own block".into()))?;
    let msg = pbo::dec_msg(node.data.as_ref().unwrap()).map_err(|_| Fail::new("own block".into()))?;
    let sharded = msg.ty == Some(pbo::HAMT);
    let kids = pbo::children(&block);
    // events up to the renamed entry
    let memo = &mut HashMap::new();
    let q = p + 1
        + kids[..nth]
            .iter()
            .map(|k| 1 + laid_refs(&store, k, memo))
            .sum::<u64>() as usize;
    let child_is_shard = matches!(laid.events[q].kind, Kind::Bucket) || {
        let b = store.get(&kids[nth]).unwrap();
        pbo::dec_node(b).ok().and_then(|(n, _)| pbo::dec_msg(&n.data?).ok()).map(|m| m.ty) == Some(Some(pbo::HAMT))
    };
    let pre = ["FA", "00", "zz", "A\u{0}", "é"][rng.idx(5)];
    let evil = [
        ".", "..", "/", "a/b", "/a", "a/", "//", "../a", "./a", "a/..", "/etc/passwd", "a/../../..", "a//b", "\u{0}/",
        "é/日",
    ];
    let e = *rng.pick(&evil);
    let (name, label): (Option<String>, u64) = if sharded {
        match rng.below(8) {
            0 => (None, 0),
            1 => (Some(String::new()), 1),
            2 => (Some(rng.pick(&["F", "/", ".", "0"]).to_string()), 2),
            3 => (Some(rng.pick(&["日", "aé", "aéa", "x日本", "🦀"]).to_string()), 3),
            4 if !child_is_shard => (Some(pre.to_string()), 4),
            _ => (Some(format!("{}{}", pre, e)), 16 + fp(e.as_bytes())),
        }
    } else {
        match rng.below(6) {
            0 => (None, 5),
            1 => (Some(String::new()), 6),
            _ => (Some(e.to_string()), 7 + fp(e.as_bytes())),
        }
    };
    // renamed to a bucket, the entry is noticed when its block arrives
    if !sharded {
        ensure!(!is_normal(name.as_deref().unwrap_or("")), "the harness made a normal name");
    }
    let old = node.links[nth].name.clone();
    node.links[nth].name = name.clone();
    store.map.insert(block_cid, pbo::enc_node(&node));
    c.describe(|| format!("link #{} of block #{} renamed from {:?} to {:?}, entry at step {}", nth, p, old, name, q));
    let log = walk(&store, &laid.cid, root, &mut None, laid.events.len() + 3)?;
    let ctx = || {
        format!(
            "root name {:?}, link #{} of {} renamed from {:?} to {:?}",
            root,
            nth,
            if sharded { "a shard" } else { "a directory" },
            old,
            name
        )
    };
    ensure!(
        log.err.is_some(),
        "{}: the walk ends without an error:\n    {}",
        ctx(),
        log.brief()
    );
    ensure!(
        log.steps.len() <= q,
        "{}: the entry is reported before the error: {}",
        ctx(),
        log.steps.last().map(|s| s.ev.brief()).unwrap_or_default()
    );
    for (s, w) in log.steps.iter().zip(&laid.events) {
        ensure!(
            s.ev == *w,
            "{}: before the error, got {}, expected {}",
            ctx(),
            s.ev.brief(),
            w.brief()
        );
    }
    c.add("bad names refused", 1);
    c.distinct("bad names", fp2(label, sharded as u64));
    c.counts(fp2(fp(&laid.cid), fp2(label, fp2(p as u64, nth as u64))));
    Ok(())
}

#[derive(Debug)]
struct Open {
    cid: Vec<u8>,
    path: PathBuf,
    meta: Option<crate::model::MetaSeen>,
    total: u64,
    bytes: Vec<u8>,
}

fn w03(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let mut gen = TreeGen::random(rng);
    gen.weights = *rng.pick(&[[8, 1, 1, 1], [8, 1, 3, 0], [8, 1, 0, 3]]);
    gen.files_big = rng.one_in(3);
    let d = depth(rng);
    let mut tree = if rng.one_in(4) { gen.tree(rng, d) } else if rng.bool() { gen.dir(rng, d) } else { gen.hamt(rng, d) };
    if rng.one_in(100) {
        tree = gen.extreme(rng);
        c.add("very deep or wide trees", 1);
    }
    let root = root_name(rng);
    let ink = Ink::random(rng);
    let mut store = Store::default();
    let laid = lay_tree(rng, &ink, &mut store, &tree, &PathBuf::from(&root), true);
    c.describe(|| format!("root name {:?}, tree {:?}", root, tree));
    // what every file of the tree contains, in order
    let mut files = Vec::new();
    for e in laid.events.iter().filter(|e| e.kind == Kind::File) {
        if e.first {
            files.push((e.path.clone(), e.cid.clone(), e.meta, e.total, Vec::new()));
        }
        files.last_mut().unwrap().4.extend_from_slice(&e.bytes);
    }
    let mut run = WalkRun::new(&store, &laid.cid, &root, laid.events.len() + 3);
    let mut open: Option<Open> = None;
    let mut nth = 0;
    let (mut several, mut segments) = (0, 0);
    while !run.done {
        run.step(&mut None)?;
        ensure!(run.log.err.is_none(), "the walk fails: {:?}", run.log.err);
        let e = &run.log.steps.last().unwrap().ev;
        let at = run.log.steps.len() - 1;
        if e.kind != Kind::File {
            ensure!(
                open.is_none(),
                "step {}: {} while {:?} has not got its last segment",
                at,
                e.brief(),
                open.as_ref().map(|o| &o.path)
            );
            continue;
        }
        segments += 1;
        let o = match open.take() {
            None => {
                ensure!(e.first, "step {}: the first segment is not flagged as such: {}", at, e.brief());
                Open {
                    cid: e.cid.clone(),
                    path: e.path.clone(),
                    meta: e.meta,
                    total: e.total,
                    bytes: Vec::new(),
                }
            }
            Some(o) => {
                several += 1;
                ensure!(!e.first, "step {}: a later segment is flagged first: {}", at, e.brief());
                ensure!(
                    o.cid == e.cid && o.path == e.path && o.meta == e.meta && o.total == e.total,
                    "step {}: the segment belongs to something else than the one before: {} after {:?} {:?} total {}",
                    at,
                    e.brief(),
                    o.path,
                    o.meta,
                    o.total
                );
                o
            }
        };
        let mut o = o;
        let kids = pbo::children(store.get(&e.block).unwrap());
        ensure!(
            kids.is_empty() || e.bytes.is_empty(),
            "step {}: a link block contributes {} bytes",
            at,
            e.bytes.len()
        );
        o.bytes.extend_from_slice(&e.bytes);
        ensure!(
            o.bytes.len() as u64 <= o.total,
            "step {}: {} bytes of a file of {}",
            at,
            o.bytes.len(),
            o.total
        );
        if e.last {
            let (path, cid, meta, total, bytes) = files
                .get(nth)
                .ok_or_else(|| Fail::new(format!("step {}: a file too many: {}", at, e.brief())))?;
            ensure!(
                *path == o.path && *cid == o.cid && *meta == o.meta && *total == o.total,
                "file #{}: got {:?} {} {:?} total {}, expected {:?} {} {:?} total {}",
                nth,
                o.path,
                hex(&o.cid),
                o.meta,
                o.total,
                path,
                hex(cid),
                meta,
                total
            );
            ensure!(
                *bytes == o.bytes,
                "file #{} {:?}: the segments make up {} bytes, not the {} of the content",
                nth,
                path,
                o.bytes.len(),
                bytes.len()
            );
            nth += 1;
        } else {
            open = Some(o);
        }
    }
    ensure!(open.is_none(), "the walk is over in the middle of {:?}", open.map(|o| o.path));
    same!(nth, files.len(), "number of files completed");
    c.add("files completed", nth as u64);
    c.add("segments", segments);
    c.add("later segments", several);
    c.distinct("shapes", shape_key(&laid.events));
    if several > 0 {
        c.counts(fp2(fp(&laid.cid), fp(root.as_bytes())));
    }
    Ok(())
}
