//! B01-B04: building directory trees.

use super::{Prop, EXPLORED, ORACLE};
use crate::drive::{cid_from, seen, variant, walk};
use crate::model::{self, Kind, Meta, MetaSeen, Store};
use crate::pbo::{self, Link, Msg};
use crate::util::{cid_of, fp, fp2, hex, hexs, Rng};
use crate::{ensure, same, Case, Fail, R};
use std::collections::{BTreeMap, HashMap};
use unixfs_v1::dir::builder::{
    BufferingTreeBuilder, PostOrderIterator, TreeBuildingFailed, TreeConstructionFailed, TreeOptions,
};
use unixfs_v1::{FlatUnixFs, Metadata};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "B01",
        title: "A built tree contains exactly the links that were put",
        run: b01,
        quick: 30000,
        rule: "random sets of links (up to ~400, nesting up to 120, names of few distinct segments so that they repeat at different depths, any total sizes, identifiers of version 0 and 1 with many codecs, hash functions and digest lengths), put in random order, built with and without wrapping, iterated owned, borrowed and mixed, and once more from another order; counted when at least one directory was emitted",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "B02",
        title: "Invalid insertions are refused and leave no trace",
        run: b02,
        quick: 60000,
        rule: "random sequences of link and metadata insertions over a small set of paths, a third of them with broken syntax, every answer compared with a model; then the built tree with the model's and with a builder given only the accepted operations; counted when at least one operation was refused",
        assumptions: &[ORACLE, EXPLORED, "Inserting at the empty path is left out: it is accepted by the implementation for a purpose of its own and the property says nothing about it."],
    },
    Prop {
        id: "B03",
        title: "Metadata set on a directory ends up in that directory",
        run: b03,
        quick: 30000,
        rule: "random trees of real blocks with metadata set before, between and after the links, several times, on existing, implied and empty directories; the emitted blocks are decoded and the built tree is walked; counted when at least one directory got metadata",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "B04",
        title: "Directory blocks never exceed the configured size limit",
        run: b04,
        quick: 20000,
        rule: "random trees built with the limit at, one below and one above the size of one of their directories, at zero, at the largest directory, off, and the default limit with a directory tuned to 512 KiB and one byte beside it; counted when at least one directory was emitted or refused",
        assumptions: &[ORACLE, EXPLORED],
    },
];

// ---- the model ---------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub(super) enum Entry {
    Link(Vec<u8>, u64),
    Dir(Dir),
}

#[derive(Clone, Debug, Default)]
pub(super) struct Dir {
    meta: Meta,
    kids: BTreeMap<String, Entry>,
}

#[derive(Clone, Debug)]
pub(super) enum Op {
    Put(String, Vec<u8>, u64),
    Meta(String, Meta),
}

impl Op {
    fn path(&self) -> &str {
        match self {
            Op::Put(p, ..) | Op::Meta(p, _) => p,
        }
    }
}

/// Errors that may be given for the operation; none: it has to be accepted.
fn judge(root: &Dir, wrap: bool, op: &Op) -> Vec<&'static str> {
    let path = op.path();
    let mut out = Vec::new();
    if path.starts_with('/') {
        out.push("RootedPath");
    }
    if path.contains("//") {
        out.push("RepeatSlashesInPath");
    }
    if path.ends_with('/') {
        out.push("PathEndsInSlash");
    }
    if !out.is_empty() {
        return out;
    }
    let segs: Vec<&str> = path.split('/').collect();
    if !wrap && !root.kids.is_empty() && !root.kids.contains_key(segs[0]) {
        return vec!["TooManyRootLevelEntries"];
    }
    let mut at = root;
    for (i, s) in segs.iter().enumerate() {
        let last = i + 1 == segs.len();
        match (at.kids.get(*s), last, op) {
            (None, _, _) => return vec![],
            (Some(Entry::Dir(d)), false, _) => at = d,
            (Some(Entry::Link(..)), false, _) => return vec!["LeafAsDirectory"],
            (Some(_), true, Op::Put(..)) => return vec!["DuplicatePath"],
            (Some(Entry::Link(..)), true, Op::Meta(..)) => return vec!["LeafAsDirectory"],
            (Some(Entry::Dir(_)), true, Op::Meta(..)) => return vec![],
        }
    }
    vec![]
}

/// Only for what `judge` accepts.
fn enact(root: &mut Dir, op: &Op) {
    let segs: Vec<&str> = op.path().split('/').collect();
    let mut at = root;
    for s in &segs[..segs.len() - 1] {
        let e = at.kids.entry(s.to_string()).or_insert_with(|| Entry::Dir(Dir::default()));
        at = match e {
            Entry::Dir(d) => d,
            _ => unreachable!(),
        };
    }
    let last = segs[segs.len() - 1].to_string();
    match op {
        Op::Put(_, cid, total) => {
            at.kids.insert(last, Entry::Link(cid.clone(), *total));
        }
        Op::Meta(_, m) => {
            let e = at.kids.entry(last).or_insert_with(|| Entry::Dir(Dir::default()));
            if let Entry::Dir(d) = e {
                d.meta = m.clone();
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub(super) struct Out {
    path: String,
    pub(super) cid: Vec<u8>,
    total: u64,
    block: Vec<u8>,
}

/// The directories of the tree in post-order, the given one last.
fn render(d: &Dir, path: &str, out: &mut Vec<Out>) -> usize {
    let mut links = Vec::new();
    let mut total = 0u64;
    for (name, e) in &d.kids {
        let (cid, t) = match e {
            Entry::Link(c, t) => (c.clone(), *t),
            Entry::Dir(k) => {
                let p = if path.is_empty() { name.clone() } else { format!("{}/{}", path, name) };
                let at = render(k, &p, out);
                (out[at].cid.clone(), out[at].total)
            }
        };
        links.push(Link::new(&cid, name, t));
        total += t;
    }
    let mut m = Msg::of(pbo::DIR);
    d.meta.into_msg(&mut m);
    // a fraction of zero is the default and left out
    if let Some((_, n)) = &mut m.mtime {
        if *n == Some(0) {
            *n = None;
        }
    }
    let block = pbo::enc_block(&links, &m);
    out.push(Out {
        path: path.to_string(),
        cid: cid_of(&block),
        total: total + block.len() as u64,
        block,
    });
    out.len() - 1
}

fn expected(root: &Dir, wrap: bool) -> Vec<Out> {
    let mut out = Vec::new();
    if wrap {
        render(root, "", &mut out);
    } else {
        for (name, e) in &root.kids {
            if let Entry::Dir(d) = e {
                render(d, name, &mut out);
            }
        }
    }
    out
}

// ---- driving the builder -----------------------------------------------------------------------

/// The only public way to come by one is to read it.
fn metadata_of(m: &Meta) -> Metadata {
    let mut msg = Msg::of(pbo::DIR);
    m.into_msg(&mut msg);
    let block = pbo::enc_block(&[], &msg);
    let flat = FlatUnixFs::try_parse(&block)
        .unwrap_or_else(|e| crate::broken(format!("a plain directory does not parse: {:?}", e)));
    Metadata::from(&flat.data)
}

pub(super) fn options(wrap: bool, limit: Option<Option<u64>>) -> TreeOptions {
    let mut o = TreeOptions::default();
    if let Some(l) = limit {
        o.block_size_limit(l);
    }
    if wrap {
        o.wrap_with_directory();
    }
    o
}

pub(super) fn perform(b: &mut BufferingTreeBuilder, op: &Op) -> Result<(), TreeBuildingFailed> {
    match op {
        Op::Put(p, c, t) => b.put_link(p, cid_from(c), *t),
        Op::Meta(p, m) => b.set_metadata(p, metadata_of(m)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Iterate {
    Owned,
    Borrowed,
    Mixed,
}

#[derive(Debug, Default, PartialEq, Clone)]
pub(super) struct Built {
    pub(super) out: Vec<Out>,
    /// Size in the error it ended with.
    too_large: Option<u64>,
}

/// One step of the iteration; whether it was the last one.
pub(super) fn next(it: &mut PostOrderIterator, borrowed: bool, built: &mut Built) -> Result<bool, Fail> {
    let item = if borrowed {
        it.next_borrowed().map(|r| {
            r.map(|n| {
                let shown = format!("{:?}", n);
                let o = Out {
                    path: n.path.to_string(),
                    cid: n.cid.to_bytes(),
                    total: n.total_size,
                    block: n.block.to_vec(),
                };
                let owned = n.into_owned();
                (o, Some((owned, shown)))
            })
        })
    } else {
        it.next().map(|r| {
            r.map(|n| {
                (
                    Out {
                        path: n.path,
                        cid: n.cid.to_bytes(),
                        total: n.total_size,
                        block: n.block.to_vec(),
                    },
                    None,
                )
            })
        })
    };
    match item {
        None => Ok(true),
        Some(Ok((o, twice))) => {
            if let Some((n, shown)) = twice {
                ensure!(
                    n.path == o.path && n.cid.to_bytes() == o.cid && n.total_size == o.total && *n.block == o.block[..],
                    "into_owned() of {} changes it",
                    shown
                );
            }
            built.out.push(o);
            Ok(false)
        }
        Some(Err(TreeConstructionFailed::TooLargeBlock(n))) => {
            built.too_large = Some(n);
            Ok(true)
        }
        Some(Err(e)) => Err(Fail(format!("building fails with {}", e))),
    }
}

fn iterate(mut it: PostOrderIterator, how: Iterate, rng: &mut Rng, max: usize) -> Result<Built, Fail> {
    let mut built = Built::default();
    loop {
        ensure!(built.out.len() <= max, "more than {} directories are emitted", max);
        let borrowed = match how {
            Iterate::Owned => false,
            Iterate::Borrowed => true,
            Iterate::Mixed => rng.bool(),
        };
        if next(&mut it, borrowed, &mut built)? {
            break;
        }
    }
    let Built { out, too_large } = built;
    for i in 0..3 {
        let more = if (i % 2 == 0) == (how == Iterate::Owned) {
            it.next().map(|r| r.map(|n| n.path).map_err(|e| e.to_string()))
        } else {
            it.next_borrowed().map(|r| r.map(|n| n.path.to_string()).map_err(|e| e.to_string()))
        };
        ensure!(
            more.is_none(),
            "after its end{} the iteration gives {:?}",
            if too_large.is_some() { " with an error" } else { "" },
            more
        );
    }
    Ok(Built { out, too_large })
}

fn compare(got: &[Out], want: &[Out], what: &str) -> R {
    let mut by: HashMap<&str, &Out> = HashMap::new();
    for o in want {
        by.insert(&o.path, o);
    }
    for (i, g) in got.iter().enumerate() {
        let w = match by.remove(g.path.as_str()) {
            Some(w) => w,
            None => {
                return Err(Fail(format!(
                    "{}: the directory {:?} is emitted, but it is not expected or was before",
                    what, g.path
                )))
            }
        };
        if g != w {
            return Err(Fail(format!(
                "{}: directory {:?} #{}: got {} total {} {}, expected {} total {} {}",
                what,
                g.path,
                i,
                hex(&g.cid),
                g.total,
                hexs(&g.block),
                hex(&w.cid),
                w.total,
                hexs(&w.block)
            )));
        }
    }
    if let Some(p) = by.keys().next() {
        return Err(Fail(format!("{}: the directory {:?} is not emitted", what, p)));
    }
    children_first(got, what)
}

fn children_first(got: &[Out], what: &str) -> R {
    let at: HashMap<&str, usize> = got.iter().enumerate().map(|(i, o)| (o.path.as_str(), i)).collect();
    for (i, o) in got.iter().enumerate() {
        let parent = match o.path.rfind('/') {
            Some(n) => &o.path[..n],
            None => "",
        };
        if let Some(p) = at.get(parent) {
            ensure!(
                o.path.is_empty() || *p > i,
                "{}: {:?} is emitted after its parent {:?}",
                what,
                o.path,
                parent
            );
        }
    }
    Ok(())
}

// ---- generators --------------------------------------------------------------------------------

fn some_cid(rng: &mut Rng) -> Vec<u8> {
    let n = rng.usize(0, 4);
    let b = rng.bytes(n);
    crate::util::cid_styled(&b, rng.below(crate::util::STYLES) as u8)
}

fn total(rng: &mut Rng) -> u64 {
    match rng.below(4) {
        0 => *rng.pick(&[0, 1, 127, 128, 255, 16383, 16384, 1 << 32, 1 << 48]),
        _ => rng.wide() >> 16,
    }
}

fn segments(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut out = Vec::new();
    while out.len() < n {
        let s = if rng.one_in(5) && !out.is_empty() {
            // almost another one
            let other: &String = rng.pick(&out);
            model::variant(rng, &other.clone())
        } else if rng.one_in(3) {
            rng.pick(&[
                ".", "..", "a", "ab", "b", "aa", "A", "é", "日本", "a.b", " ", "-", "\u{0}", "FA", "a\\b", "~",
            ])
            .to_string()
        } else {
            model::name(rng)
        };
        if !s.is_empty() && !s.contains('/') && !out.contains(&s) {
            out.push(s);
        }
    }
    out
}

fn path(rng: &mut Rng, segs: &[String], max: usize) -> String {
    let n = rng.usize(1, max);
    let v: Vec<&str> = (0..n).map(|_| rng.pick(segs).as_str()).collect();
    v.join("/")
}

/// Links which can all be put, in the order they were thought of.
/// With metadata (at most once for a directory) if wanted.
pub(super) fn compatible(rng: &mut Rng, wrap: bool, meta: bool) -> (Dir, Vec<Op>) {
    if let Some(k) = LARGE.with(|l| l.get()) {
        return large_ops(rng, wrap, meta, k);
    }
    let mut root = Dir::default();
    let mut ops = Vec::new();
    let segs = {
        let n = rng.usize(2, 12);
        segments(rng, n)
    };
    let deep = rng.one_in(40);
    let wide = rng.one_in(40);
    let n = if wide { rng.usize(100, 400) } else { rng.usize(0, 24) };
    let max = if deep { 120 } else { *rng.pick(&[1, 2, 3, 4, 6, 9]) };
    for i in 0..n {
        let mut p = path(rng, &segs, max);
        if wide {
            p = format!("{}/{}", rng.pick(&segs), i);
        }
        if !wrap {
            p = format!("{}/{}", segs[0], p);
            if n == 1 && rng.bool() {
                p = segs[0].clone();
            }
        }
        let op = if meta && rng.one_in(4) {
            // a directory of its own, or one of those there will be
            let p = match p.rfind('/') {
                Some(at) if rng.bool() => p[..at].to_string(),
                _ => p,
            };
            Op::Meta(p, Meta::random(rng))
        } else {
            Op::Put(p, some_cid(rng), total(rng))
        };
        let again = matches!(op, Op::Meta(..)) && ops.iter().any(|o| matches!((o, &op), (Op::Meta(p, _), Op::Meta(q, _)) if p == q));
        if !again && judge(&root, wrap, &op).is_empty() {
            enact(&mut root, &op);
            ops.push(op);
        }
    }
    if rng.one_in(8) {
        // one of them nearly as large as possible
        let sum = |ops: &[Op], but: usize| -> u64 {
            let of = |o: &Op| if let Op::Put(_, _, t) = o { *t } else { 0 };
            ops.iter().enumerate().filter(|(i, _)| *i != but).map(|(_, o)| of(o)).sum()
        };
        let i = rng.idx(ops.len().max(1));
        let most = u64::MAX - sum(&ops, i) - (1 << 40);
        if let Some(Op::Put(_, _, t)) = ops.get_mut(i) {
            *t = *rng.pick(&[1 << 63, (1 << 63) - 1, (1 << 63) + 12345, most]);
            root = Dir::default();
            for op in &ops {
                enact(&mut root, op);
            }
        }
    }
    (root, ops)
}

thread_local! {
    static LARGE: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}

pub(super) fn large(c: &mut Case, run: fn(&mut Case) -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LARGE.with(|l| l.set(None));
        }
    }
    LARGE.with(|l| l.set(c.large));
    let _off = Off;
    c.add("cases of unusual extent", 1);
    run(c)
}

/// Directories or links by the ten thousands, or directories within directories by the hundreds.
fn large_ops(rng: &mut Rng, wrap: bool, meta: bool, kind: u64) -> (Dir, Vec<Op>) {
    let mut root = Dir::default();
    let mut ops = Vec::new();
    let under = |p: String| if wrap { p } else { format!("top/{}", p) };
    let n = rng.usize(65_540, 70_000);
    let mut paths = Vec::new();
    match kind % 4 {
        0 => {
            // beside each other
            let every = rng.usize(2, 9);
            for i in 0..n {
                paths.push(format!("d{}/x", i));
                if i % every == 0 {
                    paths.push(format!("l{}", i));
                }
            }
        }
        1 => {
            // links in one
            paths.extend((0..n).map(|i| format!("a/{}", i)));
            paths.push("b/z".into());
        }
        3 => {
            // with long names, some directories of mebibytes among smaller ones
            for d in 0..rng.usize(7, 9) {
                let len = *rng.pick(&[800, 1500, 3000]);
                let some = if d < 2 || rng.bool() { rng.usize(17 << 18, 7 << 20) } else { rng.usize(1000, 2 << 20) };
                for i in 0..some / len + 1 {
                    paths.push(format!("d{}/{}/{}{}", (d > 4) as u8, d, "é".repeat(len / 2), i));
                }
            }
        }
        _ => {
            let mut p = String::new();
            for i in 0..rng.usize(300, 900) {
                paths.push(format!("{}f{}", p, i));
                p.push_str(rng.pick(&["a/", "b/", "é/", "aa/"]));
            }
        }
    }
    // one in the first directories and again when there are many
    for d in ["early/0", "early/1", "mid/0", "late/0", "late/1", "early/2", "mid/1", "early/sub/x"] {
        let at = if d.starts_with("late") { paths.len() } else { rng.idx(paths.len()) };
        paths.insert(if d == "early/0" { 0 } else { at }, d.to_string());
    }
    let mut have = std::collections::HashSet::new();
    for p in paths {
        let p = under(p);
        let dir = p.rfind('/').map(|at| p[..at].to_string());
        ops.push(Op::Put(p, some_cid(rng), total(rng) >> 20));
        if meta && rng.one_in(40) {
            if let Some(d) = dir {
                if have.insert(d.clone()) {
                    ops.push(Op::Meta(d, Meta::random(rng)));
                }
            }
        }
    }
    for op in &ops {
        enact(&mut root, op);
    }
    (root, ops)
}

fn shape_of(d: &Dir) -> u64 {
    d.kids.iter().fold(d.kids.len() as u64, |h, (_, e)| {
        fp2(
            h,
            match e {
                Entry::Link(..) => 1,
                Entry::Dir(d) => fp2(2, shape_of(d)),
            },
        )
    })
}

fn key(ops: &[Op]) -> u64 {
    ops.iter().fold(0, |h, o| fp2(h, fp(format!("{:?}", o).as_bytes())))
}

fn put_all(b: &mut BufferingTreeBuilder, ops: &[Op]) -> R {
    for op in ops {
        if let Err(e) = perform(b, op) {
            return Err(Fail(format!("{:?} is refused: {:?}", op, e)));
        }
    }
    Ok(())
}

// ---- B01 ---------------------------------------------------------------------------------------

pub(super) fn b01(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let wrap = rng.bool();
    // run for B03, too
    let meta = rng.bool() || c.large >= Some(99);
    let (root, mut ops) = compatible(rng, wrap, meta);
    c.describe(|| format!("wrap {}, {:?}", wrap, ops));
    let want = expected(&root, wrap);
    let mut logs: Vec<Vec<Out>> = Vec::new();
    for round in 0..3 {
        if round > 0 {
            rng.shuffle(&mut ops);
        }
        let mut b = if !wrap && c.large.is_none() && rng.one_in(4) {
            BufferingTreeBuilder::default()
        } else {
            BufferingTreeBuilder::new(options(wrap, Some(None)))
        };
        put_all(&mut b, &ops)?;
        let how = [Iterate::Owned, Iterate::Borrowed, Iterate::Mixed][round];
        let built = iterate(b.build(), how, rng, want.len())?;
        ensure!(
            built.too_large.is_none(),
            "without a limit, a block of {:?} bytes is too large",
            built.too_large
        );
        compare(&built.out, &want, &format!("round {} ({:?})", round, how))?;
        ensure!(
            built.out.last().map(|o| &o.path) == want.last().map(|o| &o.path),
            "the last directory is {:?}, not the root",
            built.out.last().map(|o| &o.path)
        );
        c.add("directories compared", built.out.len() as u64);
        logs.push(built.out);
    }
    ensure!(
        logs[0] == logs[1] && logs[1] == logs[2],
        "the sequences of directories differ between orders of insertion or kinds of iteration"
    );
    c.add("links and metadata put", ops.len() as u64 * 3);
    c.max("most directories in one tree", want.len() as u64);
    c.distinct("tree shapes", shape_of(&root));
    if !want.is_empty() {
        c.counts(fp2(key(&ops), wrap as u64));
    }
    Ok(())
}

// ---- B02 ---------------------------------------------------------------------------------------

fn b02(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let wrap = rng.bool();
    let segs = {
        let n = rng.usize(1, 4);
        segments(rng, n)
    };
    let n = rng.usize(1, 30);
    let max = *rng.pick(&[1, 2, 3, 5]);
    let mut root = Dir::default();
    let mut b = BufferingTreeBuilder::new(options(wrap, Some(None)));
    let mut done = Vec::new();
    let mut all = Vec::new();
    let mut refused = 0;
    let anchored = rng.one_in(2);
    let mut segs = segs;
    if c.large.is_some() {
        let (r, ops) = large_ops(rng, wrap, true, c.large.unwrap_or(0));
        put_all(&mut b, &ops)?;
        root = r;
        done = ops;
        segs = ["top", "a", "b", "early", "late", "mid", "0", "1", "d0", "d1", "d66", "d65535", "d65536", "x", "77", "65536"]
            .iter()
            .map(|s| s.to_string())
            .collect();
    }
    let n = if c.large.is_some() { 400 } else { n };
    for _ in 0..n {
        let mut p = path(rng, &segs, max);
        if anchored && !wrap && rng.below(5) > 0 {
            p = format!("{}/{}", segs[0], p);
        }
        if rng.one_in(3) {
            match rng.below(6) {
                0 => p.insert(0, '/'),
                1 => p.push('/'),
                2 => {
                    if let Some(i) = p.find('/') {
                        p.insert(i, '/');
                    } else {
                        p.push_str("//");
                    }
                }
                3 => p = "/".to_string(),
                4 => p = format!("//{}", p),
                _ => p = format!("{}//x", p),
            }
        }
        let op = if rng.one_in(3) {
            Op::Meta(p, Meta::random(rng))
        } else {
            Op::Put(p, some_cid(rng), total(rng))
        };
        all.push(op.clone());
        c.describe(|| format!("{:?}", op));
        let want = judge(&root, wrap, &op);
        match perform(&mut b, &op) {
            Ok(()) => {
                ensure!(
                    want.is_empty(),
                    "{:?} is accepted (wrap {}), expected {:?}, after {:?}",
                    op,
                    wrap,
                    want,
                    done
                );
                enact(&mut root, &op);
                done.push(op);
                c.add("accepted", 1);
            }
            Err(e) => {
                let debug = format!("{:?}", e);
                let text = e.to_string();
                ensure!(
                    want.contains(&variant(&debug)),
                    "{:?} is refused with {} (wrap {}), expected {:?}, after {:?}",
                    op,
                    debug,
                    wrap,
                    want,
                    done
                );
                use TreeBuildingFailed::*;
                match &e {
                    RootedPath(s) | RepeatSlashesInPath(s) | PathEndsInSlash(s) | DuplicatePath(s)
                    | LeafAsDirectory(s) => {
                        ensure!(
                            s == op.path() && text.contains(&format!("{:?}", s)),
                            "{:?} is refused because of {:?}: {}",
                            op,
                            s,
                            text
                        );
                    }
                    TooManyRootLevelEntries => {}
                }
                refused += 1;
                c.add(
                    match want[0] {
                        "RootedPath" => "refused: rooted",
                        "RepeatSlashesInPath" => "refused: empty segment",
                        "PathEndsInSlash" => "refused: ends in slash",
                        "TooManyRootLevelEntries" => "refused: second root entry",
                        "DuplicatePath" => "refused: exists already",
                        _ => "refused: link as directory",
                    },
                    1,
                );
            }
        }
    }
    let want = expected(&root, wrap);
    let got = iterate(b.build(), Iterate::Owned, rng, want.len())?.out;
    let mut clean = BufferingTreeBuilder::new(options(wrap, Some(None)));
    put_all(&mut clean, &done)?;
    let plain = iterate(clean.build(), Iterate::Borrowed, rng, want.len())?.out;
    compare(&got, &plain, "against the accepted operations alone")?;
    compare(&got, &want, "against the model")?;
    c.add("directories compared", got.len() as u64);
    c.distinct("tree shapes", shape_of(&root));
    if refused > 0 {
        c.counts(fp2(key(&all), wrap as u64));
    }
    Ok(())
}

// ---- B03 ---------------------------------------------------------------------------------------

fn b03(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let wrap = rng.bool();
    let mut store = Store::default();
    let mut leaves = Vec::new();
    for i in 0..3u8 {
        let m = Msg {
            ty: Some(if i == 2 { pbo::SYMLINK } else { pbo::FILE }),
            data: Some(vec![b'a' + i]),
            filesize: if i == 2 { None } else { Some(1) },
            ..Default::default()
        };
        let b = pbo::enc_block(&[], &m);
        leaves.push((store.put(b.clone(), 0), b.len() as u64));
    }
    let names = {
        let n = rng.usize(1, 5);
        model::distinct_names(rng, n)
    };
    let max = *rng.pick(&[1, 2, 3, 4]);
    let n = rng.usize(1, 24);
    let mut root = Dir::default();
    let mut b = if !wrap && rng.bool() {
        BufferingTreeBuilder::default()
    } else {
        BufferingTreeBuilder::new(options(wrap, None))
    };
    // by path, the last one set
    let mut set: BTreeMap<String, Meta> = BTreeMap::new();
    let mut ops = Vec::new();
    for _ in 0..n {
        let mut p = path(rng, &names, max);
        if !wrap {
            p = if rng.one_in(3) { names[0].clone() } else { format!("{}/{}", names[0], p) };
        }
        let op = if rng.bool() {
            Op::Meta(p, Meta::random(rng))
        } else {
            let l = rng.pick(&leaves).clone();
            Op::Put(p, l.0, l.1)
        };
        if !judge(&root, wrap, &op).is_empty() {
            continue;
        }
        if let Err(e) = perform(&mut b, &op) {
            return Err(Fail(format!("{:?} is refused: {:?}, after {:?}", op, e, ops)));
        }
        enact(&mut root, &op);
        if let Op::Meta(p, m) = &op {
            if set.insert(p.clone(), m.clone()).is_some() {
                c.add("metadata set again", 1);
            }
        }
        ops.push(op);
    }
    c.describe(|| format!("wrap {}, {:?}", wrap, ops));
    let count = expected(&root, wrap).len();
    let got = iterate(b.build(), if rng.bool() { Iterate::Owned } else { Iterate::Borrowed }, rng, count)?.out;
    same!(got.len(), count, "number of directories emitted after {:?}", ops);
    let mut by: BTreeMap<String, MetaSeen> = BTreeMap::new();
    for o in &got {
        let (node, _) = pbo::dec_node(&o.block)
            .map_err(|e| Fail(format!("{:?} is not dag-pb: {:?} {}", o.path, e, hexs(&o.block))))?;
        let m = node
            .data
            .ok_or(pbo::Bad::Malformed)
            .and_then(|d| pbo::dec_msg(&d))
            .map_err(|e| Fail(format!("{:?} has no UnixFS message: {:?} {}", o.path, e, hexs(&o.block))))?;
        let have: MetaSeen = (m.mode, m.mtime.map(|(s, n)| (s, n.unwrap_or(0))));
        let want = set.get(&o.path).map(|m| m.seen()).unwrap_or_default();
        ensure!(
            have == want,
            "directory {:?} is written with {:?}, expected {:?}, after {:?}",
            o.path,
            have,
            want,
            ops
        );
        ensure!(
            m.ty == Some(pbo::DIR)
                && m.data.is_none()
                && m.filesize.is_none()
                && m.blocksizes.is_empty()
                && m.hash_type.is_none()
                && m.fanout.is_none(),
            "directory {:?} is written as {:?}",
            o.path,
            m
        );
        by.insert(o.path.clone(), want);
        store.map.insert(o.cid.clone(), o.block.clone());
        c.distinct("metadata written", fp(format!("{:?}", have).as_bytes()));
    }
    for p in set.keys() {
        ensure!(
            by.contains_key(p),
            "metadata was set for {:?}, but no such directory is emitted, after {:?}",
            p,
            ops
        );
    }
    // the parents link to the blocks with the metadata
    if let Some(last) = got.last() {
        let base = last.path.clone();
        let log = walk(&store, &last.cid, &base, &mut None, 4000)?;
        ensure!(log.err.is_none(), "walking the built tree fails: {:?}", log.err);
        let mut met = 0;
        for s in &log.steps {
            let p = s.ev.path.to_str().unwrap_or("?").to_string();
            if s.ev.kind == Kind::Dir || s.ev.kind == Kind::Root {
                let want = by.get(&p).copied();
                ensure!(
                    want == s.ev.meta,
                    "a walk reports {:?} with {:?}, set was {:?}, after {:?}",
                    p,
                    s.ev.meta,
                    want,
                    ops
                );
                met += 1;
            } else {
                ensure!(
                    s.ev.meta == Some((None, None)),
                    "a walk reports {:?} for {:?}, for which none was set",
                    s.ev.meta,
                    p
                );
            }
        }
        same!(met, got.len(), "directories met by the walk");
    }
    // asking the metadata itself
    for m in set.values() {
        same!(seen(&metadata_of(m)), m.seen(), "metadata read to be set");
    }
    c.add("directories with metadata", set.len() as u64);
    c.add("directories", got.len() as u64);
    if !set.is_empty() {
        c.counts(fp2(key(&ops), wrap as u64));
    }
    Ok(())
}

// ---- B04 ---------------------------------------------------------------------------------------

/// A directory whose block has exactly this size, out of links.
fn sized_dir(rng: &mut Rng, size: usize) -> Option<Dir> {
    let mut d = Dir::default();
    let cid = crate::util::cid_styled(b"x", 0);
    let mut left = size.checked_sub(4)?;
    let mut i = 0;
    // every entry: 36 bytes of identifier with its header, a name, a size
    while left > 400 {
        let pad = if rng.one_in(3) { rng.usize(0, 150) } else { 0 };
        let name = format!("{:06}{}", i, "p".repeat(pad));
        let l = Link::new(&cid, &name, 1);
        let n = pbo::enc_link(&l).len();
        let whole = n + if n < 128 { 2 } else { 3 };
        left -= whole;
        d.kids.insert(name, Entry::Link(cid.clone(), 1));
        i += 1;
    }
    for pad in 1..400 {
        let name = "z".repeat(pad);
        let n = pbo::enc_link(&Link::new(&cid, &name, 1)).len();
        if n + if n < 128 { 2 } else { 3 } == left {
            d.kids.insert(name, Entry::Link(cid.clone(), 1));
            let mut out = Vec::new();
            render(&d, "", &mut out);
            return Some(d).filter(|_| out[0].block.len() == size);
        }
    }
    None
}

fn dir_ops(d: &Dir, path: &str, ops: &mut Vec<Op>) {
    for (n, e) in &d.kids {
        let p = if path.is_empty() { n.clone() } else { format!("{}/{}", path, n) };
        match e {
            Entry::Link(c, t) => ops.push(Op::Put(p, c.clone(), *t)),
            Entry::Dir(d) => dir_ops(d, &p, ops),
        }
    }
}

fn check_limit(c: &mut Case, rng: &mut Rng, wrap: bool, ops: &[Op], want: &[Out], set: Option<Option<u64>>) -> R {
    let limit = set.unwrap_or(Some(512 * 1024));
    let mut b = BufferingTreeBuilder::new(options(wrap, set));
    put_all(&mut b, ops)?;
    let how = *rng.pick(&[Iterate::Owned, Iterate::Borrowed, Iterate::Mixed]);
    let built = iterate(b.build(), how, rng, want.len())?;
    let over = |o: &&Out| matches!(limit, Some(l) if o.block.len() as u64 > l);
    for o in &built.out {
        ensure!(
            !over(&o),
            "a block of {} bytes is emitted for {:?} with a limit of {:?}",
            o.block.len(),
            o.path,
            limit
        );
    }
    let any = want.iter().any(|o| over(&o));
    match built.too_large {
        None => {
            ensure!(
                !any,
                "limit {:?}: the iteration ends without an error after {} of {} directories, one of which is too large",
                limit,
                built.out.len(),
                want.len()
            );
            compare(&built.out, want, &format!("limit {:?}", limit))?;
            c.add("trees within the limit", 1);
        }
        Some(size) => {
            // the one refused: too large, with everything below it emitted, and not emitted itself
            let done: HashMap<&str, &Out> = built.out.iter().map(|o| (o.path.as_str(), o)).collect();
            let fits = want.iter().any(|o| {
                over(&o)
                    && o.block.len() as u64 == size
                    && !done.contains_key(o.path.as_str())
                    && want.iter().all(|k| {
                        let below = k.path != o.path
                            && (o.path.is_empty() || k.path.starts_with(&format!("{}/", o.path)));
                        !below || done.contains_key(k.path.as_str())
                    })
            });
            ensure!(
                fits,
                "limit {:?}: TooLargeBlock({}) after {:?}, the directories are {:?}",
                limit,
                size,
                built.out.iter().map(|o| &o.path).collect::<Vec<_>>(),
                want.iter().map(|o| (&o.path, o.block.len())).collect::<Vec<_>>()
            );
            let part: Vec<Out> = want.iter().filter(|o| done.contains_key(o.path.as_str())).cloned().collect();
            compare(&built.out, &part, &format!("limit {:?}, before the error", limit))?;
            let text = TreeConstructionFailed::TooLargeBlock(size).to_string();
            ensure!(text.contains(&size.to_string()), "{:?} does not tell the size {}", text, size);
            c.add("trees refused", 1);
        }
    }
    Ok(())
}

fn b04(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let wrap = rng.bool() || c.large == Some(0);
    if c.idx % 160 < 3 && c.large.is_none() {
        // around the default limit
        let size = 512 * 1024 + (c.idx % 160) as usize - 1;
        let d = match sized_dir(rng, size) {
            Some(d) => d,
            None => return Ok(()),
        };
        let mut root = Dir::default();
        root.kids.insert("big".into(), Entry::Dir(d));
        if wrap && rng.bool() {
            root.kids.insert("a".into(), Entry::Link(some_cid(rng), 1));
        }
        let mut ops = Vec::new();
        dir_ops(&root, "", &mut ops);
        let want = expected(&root, wrap);
        c.describe(|| format!("a directory of {} bytes under the default limit, wrap {}", size, wrap));
        check_limit(c, rng, wrap, &ops, &want, None)?;
        c.add("default limit", 1);
        c.counts(fp2(size as u64, fp2(wrap as u64, rng.next())));
        return Ok(());
    }
    let meta = rng.bool();
    let (root, ops) = compatible(rng, wrap, meta);
    let want = expected(&root, wrap);
    c.describe(|| format!("wrap {}, {:?}", wrap, ops));
    let sizes: Vec<u64> = want.iter().map(|o| o.block.len() as u64).collect();
    let max = sizes.iter().copied().max().unwrap_or(4);
    let some = if sizes.is_empty() { 4 } else { *rng.pick(&sizes) };
    let limits = [
        Some(Some(max)),
        Some(Some(max - 1)),
        Some(Some(some)),
        Some(Some(some - 1)),
        Some(Some(some + 1)),
        Some(Some(0)),
        Some(Some(u64::MAX)),
        Some(None),
        None,
        // far above every block, and small where only some of the bits are looked at
        Some(Some((rng.range(1, 1 << 16) << 32) + rng.below(some))),
        Some(Some((rng.range(1, 1 << 16) << 16) + rng.below(some))),
        Some(Some(1 << rng.range(8, 63))),
    ];
    for (i, l) in limits.iter().enumerate() {
        if c.large.is_some() && i > 1 && rng.bool() {
            continue;
        }
        check_limit(c, rng, wrap, &ops, &want, *l)?;
        c.distinct("limit relative to sizes", {
            let l = match l {
                Some(Some(l)) => *l,
                _ => u64::MAX,
            };
            let over = sizes.iter().filter(|s| **s > l).count() as u64;
            fp2(fp2(over, sizes.len() as u64), sizes.contains(&l) as u64)
        });
    }
    c.add("directories", want.len() as u64);
    if !want.is_empty() {
        c.counts(fp2(key(&ops), wrap as u64));
    }
    Ok(())
}
