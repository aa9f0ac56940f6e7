//! R01 - R04: reading files.

use super::{Prop, EXPLORED, ORACLE};
use crate::drive::{variant, visit, walk, VLog, VisitRun, WLog, WalkRun};
use crate::model::{
    lay_file, lay_file_with, lay_tree, lopsided, random_dag, root_name, tail, FNode, FileModel, Ink, Kind, Leaves,
    Meta, Shape, Sparse, Store, TreeGen,
};
use crate::pbo::{self, Link, Msg};
use crate::util::{fp, fp2, hexs, Rng};
use crate::{ensure, same, Case, Fail, R};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "R01",
        title: "Any well-formed file tree is read completely and in order",
        run: r01,
        quick: 12000,
        rule: "Random well-formed file trees (single block, balanced, trickle, lopsided, one wide node, wild; raw or file nodes, sized or unsized leaves, empty, repeated and distinct leaves, canonical and equivalent non-canonical encodings, both identifier versions), laid out by the oracle's own encoder, are visited and walked to the end. Every step's request, bytes, total, metadata and end are compared. One in 20 is the beginning of a file of up to 2^64-1 bytes made of shared blocks. Non-trivial when at least one block was read; distinct by tree and metadata.",
        assumptions: &[ORACLE, EXPLORED, "Leaves are dag-pb nodes: the crate does not support raw-codec leaves."],
    },
    Prop {
        id: "R02",
        title: "A ranged read returns exactly the requested part of the file",
        run: r02,
        quick: 5000,
        rule: "Random well-formed file trees; for files of up to 14 bytes every range with both ends in 0..=length+2 (reversed ones too), for larger ones 60 ranges at, around and between block boundaries, beyond the end and near 2^64; one in 8 files is up to 2^64-1 bytes long, made of shared blocks. Bytes are compared with the slice of the content; the requested blocks have to be a subsequence of the blocks that overlap or touch the range. Non-trivial when at least one range was read.",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "R03",
        title: "Announced pending links are exactly what will be needed",
        run: r03,
        quick: 12000,
        rule: "Random files (whole and ranged visits), trees (walks) and sharded directories (lookups); at every step the announced list is compared with the one before: head consumed, new children of the supplied block - all of them for unranged reading, read out of the block by the oracle - in front (behind for lookups), nothing else changed, nothing left over at the end. Non-trivial when at least one announcement was checked.",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "R04",
        title: "Structurally broken file trees are reported, never misread",
        run: r04,
        quick: 40000,
        rule: "A random well-formed file tree gets one defect out of 20 kinds at a random node; it is read by the visitor and by the walker, as root and inside of a directory. The steps before the error have to be exactly the ones of the intact file, the error has to come at the block (or, for holes and overlaps between leaves, at the next request) and be of a kind that names the defect. Non-trivial when the defect was applied; distinct by defect, position and tree.",
        assumptions: &[
            ORACLE,
            EXPLORED,
            "Whether the length of a leaf's content equals the size it declares is not validated by the visitor, as its documentation says, and is not decided here.",
        ],
    },
];

/// A random file, laid out.
pub struct Filed {
    pub store: Store,
    pub f: FileModel,
}

pub fn random_file(rng: &mut Rng, big: bool) -> Filed {
    let dag = if rng.one_in(60) {
        // very deep or very wide
        let mut s = Shape::random(rng);
        if rng.bool() {
            let d = rng.usize(100, 400);
            lopsided(rng, &mut s, d)
        } else {
            let n = rng.usize(300, 3000);
            FNode::Inner {
                kids: (0..n).map(|_| s.leaf(rng)).collect(),
                raw: false,
            }
        }
    } else {
        random_dag(rng, big)
    };
    let ink = Ink::random(rng);
    let meta = Meta::sparse(rng);
    let mut store = Store::default();
    let f = lay_file(rng, &ink, &mut store, &dag, &meta);
    Filed { store, f }
}

fn file_key(f: &FileModel) -> u64 {
    f.blocks.iter().fold(fp2(f.total(), f.blocks.len() as u64), |h, b| fp2(h, fp(&b.cid)))
}

pub fn describe_file(f: &FileModel) -> String {
    let mut s = format!("file of {} bytes in {} blocks, {:?}:", f.total(), f.blocks.len(), f.meta);
    for (i, b) in f.blocks.iter().enumerate().take(12) {
        s.push_str(&format!(
            "\n  #{} {} [{}..{}) {} kids {:?} {:?}",
            i,
            tail(&b.cid),
            b.start,
            b.end,
            if b.is_leaf { "leaf" } else { "links" },
            b.kids,
            hexs(&b.bytes)
        ));
    }
    s
}

/// The steps of a complete visit.
fn expect_visit(f: &FileModel, log: &VLog) -> R {
    ensure!(log.err.is_none(), "visiting fails: {}\n{}", log.brief(), describe_file(f));
    for (i, s) in log.steps.iter().enumerate() {
        let b = match f.blocks.get(i) {
            Some(b) => b,
            None => return Err(Fail(format!("{} steps for {} blocks: {}", log.steps.len(), f.blocks.len(), log.brief()))),
        };
        ensure!(
            s.block == b.cid,
            "step {} requests {}, due is {} (block {} in depth-first order)\n{}",
            i,
            tail(&s.block),
            tail(&b.cid),
            i,
            describe_file(f)
        );
        ensure!(
            s.bytes == b.bytes,
            "step {} returns {} instead of {}",
            i,
            hexs(&s.bytes),
            hexs(&b.bytes)
        );
        if let Some(t) = s.total {
            same!(t, f.total(), "total size after step {} of {}", i, f.blocks.len());
        }
        if let Some(m) = &s.meta {
            same!(*m, f.meta.seen(), "metadata after step {}", i);
        }
    }
    ensure!(
        log.steps.len() == f.blocks.len(),
        "the visit ends after {} of {} blocks\n{}",
        log.steps.len(),
        f.blocks.len(),
        describe_file(f)
    );
    Ok(())
}

/// The beginning of a file which is too long to be read to its end.
fn r01_sparse(c: &mut Case) -> R {
    let ink = Ink::random(&mut c.rng);
    let mut store = Store::default();
    let f = Sparse::random(&mut c.rng, &ink, &mut store);
    let total = f.root().total;
    let root = f.root().cid.clone();
    c.describe(|| format!("the beginning of a file of {} bytes in {} different blocks", total, f.nodes.len()));
    let steps = c.rng.usize(1, 300);
    let want = f.begin(steps);
    let mut run = VisitRun::new(&store, &root, None, steps + 2);
    let mut w = WalkRun::new(&store, &root, "", steps + 2);
    for (i, (cid, bytes)) in want.iter().enumerate() {
        ensure!(!run.done, "the visit of {} bytes ends after {} blocks: {}", total, i, run.log.brief());
        run.step(&mut None)?;
        let s = match run.log.steps.last() {
            Some(s) if run.log.err.is_none() => s,
            _ => return Err(Fail(format!("the visit of {} bytes fails: {}", total, run.log.brief()))),
        };
        ensure!(
            s.block == *cid && s.bytes == *bytes,
            "step {} of visiting {} bytes requests {} and returns {}, due are {} and {}",
            i,
            total,
            tail(&s.block),
            hexs(&s.bytes),
            tail(cid),
            hexs(bytes)
        );
        if let Some(t) = s.total {
            same!(t, total, "total size after step {}", i);
        }
        if let Some(m) = &s.meta {
            same!(*m, f.meta.seen(), "metadata after step {}", i);
        }
        ensure!(!w.done, "the walk of {} bytes ends after {} blocks: {}", total, i, w.log.brief());
        w.step(&mut None)?;
        let e = match w.log.steps.last() {
            Some(s) if w.log.err.is_none() => &s.ev,
            _ => return Err(Fail(format!("the walk of {} bytes fails: {}", total, w.log.brief()))),
        };
        ensure!(
            e.block == *cid && e.bytes == *bytes && e.total == total && e.kind == Kind::File,
            "step {} of walking a file of {} bytes: {}",
            i,
            total,
            e.brief()
        );
    }
    c.add("visitor steps", want.len() as u64);
    c.add("walker steps", want.len() as u64);
    c.add("beginnings of huge files", 1);
    c.counts(fp2(fp(&root), steps as u64));
    Ok(())
}

fn r01(c: &mut Case) -> R {
    if c.idx % 20 == 19 {
        return r01_sparse(c);
    }
    let big = c.thorough() && c.rng.one_in(3);
    let Filed { store, f } = random_file(&mut c.rng, big);
    c.describe(|| describe_file(&f));
    let n = f.blocks.len();
    let log = visit(&store, f.root(), None, &mut None, n + 3)?;
    expect_visit(&f, &log)?;
    let name = root_name(&mut c.rng);
    let w = walk(&store, f.root(), &name, &mut None, n + 3)?;
    ensure!(w.err.is_none(), "walking fails: {}\n{}", w.brief(), describe_file(&f));
    same!(w.steps.len(), n, "number of steps of the walk");
    for (i, (s, b)) in w.steps.iter().zip(&f.blocks).enumerate() {
        same!(s.ev.kind, Kind::File, "kind of step {} of the walk", i);
        ensure!(
            s.ev.block == b.cid,
            "walk step {} requests {}, due is {}",
            i,
            tail(&s.ev.block),
            tail(&b.cid)
        );
        ensure!(
            s.ev.bytes == b.bytes,
            "walk step {} returns {} instead of {}",
            i,
            hexs(&s.ev.bytes),
            hexs(&b.bytes)
        );
        same!(s.ev.total, f.total(), "total size in step {} of the walk", i);
        same!(s.ev.meta, Some(f.meta.seen()), "metadata in step {} of the walk", i);
    }
    c.add("visitor steps", n as u64);
    c.add("walker steps", n as u64);
    c.add("bytes compared", 2 * f.total());
    c.max("max_blocks", n as u64);
    c.distinct("file shapes", shape(&f));
    c.counts(file_key(&f));
    Ok(())
}

fn shape(f: &FileModel) -> u64 {
    f.blocks.iter().fold(0, |h, b| fp2(h, b.kids.len() as u64 * 2 + b.is_leaf as u64))
}

fn touches(s: u64, e: u64, r: &std::ops::Range<u64>) -> bool {
    s.max(r.start) <= e.min(r.end)
}

fn part(content: &[u8], r: &std::ops::Range<u64>) -> Vec<u8> {
    let n = content.len() as u64;
    let (a, b) = (r.start.min(n), r.end.min(n));
    if a < b {
        content[a as usize..b as usize].to_vec()
    } else {
        Vec::new()
    }
}

fn ranged(f: &FileModel, store: &Store, r: std::ops::Range<u64>) -> Result<VLog, Fail> {
    let log = visit(store, f.root(), Some(r.clone()), &mut None, f.blocks.len() + 3)?;
    ensure!(
        log.err.is_none(),
        "reading {:?} fails: {}\n{}",
        r,
        log.brief(),
        describe_file(f)
    );
    let want = part(&f.content, &r);
    let got = log.bytes();
    ensure!(
        got == want,
        "reading {:?} returns {} instead of {}\n{}\n{}",
        r,
        hexs(&got),
        hexs(&want),
        log.brief(),
        describe_file(f)
    );
    let mut at = 0;
    for (i, s) in log.steps.iter().enumerate() {
        if i == 0 {
            at = 1;
        } else {
            // the next block in depth-first order with that identifier which may be asked for
            match (at..f.blocks.len()).find(|j| {
                let b = &f.blocks[*j];
                b.cid == s.block && touches(b.start, b.end, &r)
            }) {
                Some(j) => at = j + 1,
                None => {
                    return Err(Fail(format!(
                        "reading {:?} requests {} in step {}, which neither overlaps nor touches the range there\n{}\n{}",
                        r,
                        tail(&s.block),
                        i,
                        log.brief(),
                        describe_file(f)
                    )))
                }
            }
        }
        if let Some(t) = s.total {
            same!(t, f.total(), "total size after step {} of reading {:?}", i, r);
        }
        if let Some(m) = &s.meta {
            same!(*m, f.meta.seen(), "metadata after step {} of reading {:?}", i, r);
        }
    }
    Ok(log)
}

fn random_point(rng: &mut Rng, f: &FileModel) -> u64 {
    let n = f.total();
    match rng.below(8) {
        0..=3 => {
            let b = rng.pick(&f.blocks);
            let p = if rng.bool() { b.start } else { b.end };
            p.wrapping_add(rng.below(3)).saturating_sub(1)
        }
        4 | 5 => rng.below(n + 1),
        6 => n + rng.below(5),
        _ => *rng.pick(&[0, n, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, n.wrapping_sub(1)]),
    }
}

/// Ranges of files which are terabytes long.
fn r02_sparse(c: &mut Case) -> R {
    let ink = Ink::random(&mut c.rng);
    let mut store = Store::default();
    let f = Sparse::random(&mut c.rng, &ink, &mut store);
    let total = f.root().total;
    let root = f.root().cid.clone();
    c.describe(|| format!("file of {} bytes in {} different blocks", total, f.nodes.len()));
    for _ in 0..12 {
        // next to a boundary between blocks
        let mut n = f.root();
        let mut at = 0;
        let stop = c.rng.usize(0, 64);
        for _ in 0..stop {
            if n.kids.is_empty() {
                break;
            }
            let i = c.rng.idx(n.kids.len());
            at += n.kids[..i].iter().map(|k| f.nodes[*k].total).sum::<u64>();
            n = &f.nodes[n.kids[i]];
        }
        if c.rng.bool() {
            at += n.total;
        }
        let a = match c.rng.below(8) {
            0 => c.rng.below(total),
            1 => total.saturating_sub(c.rng.below(20)),
            2 => u64::MAX - c.rng.below(3),
            _ => at.saturating_sub(c.rng.below(12)),
        };
        let b = match c.rng.below(8) {
            0 => a,
            1 => a.saturating_sub(c.rng.below(20)),
            _ => a.saturating_add(c.rng.below(100)),
        };
        let r = if total - a.min(total) < 500 && c.rng.one_in(3) { a..u64::MAX } else { a..b };
        let (blocks, bytes) = f.part(&r);
        let log = visit(&store, &root, Some(r.clone()), &mut None, blocks.len() + 2)?;
        ensure!(log.err.is_none(), "reading {:?} of {} bytes fails: {}", r, total, log.brief());
        ensure!(
            log.bytes() == bytes,
            "reading {:?} of {} bytes returns {} instead of {}: {}",
            r,
            total,
            hexs(&log.bytes()),
            hexs(&bytes),
            log.brief()
        );
        let mut due = blocks.iter();
        for (i, s) in log.steps.iter().enumerate() {
            ensure!(
                due.any(|b| *b == s.block),
                "reading {:?} of {} bytes requests {} in step {}, which neither overlaps nor touches the range there: {}",
                r,
                total,
                tail(&s.block),
                i,
                log.brief()
            );
            same!(s.total.unwrap_or(total), total, "total size after step {} of reading {:?}", i, r);
            if let Some(m) = &s.meta {
                same!(*m, f.meta.seen(), "metadata after step {} of reading {:?}", i, r);
            }
        }
        c.distinct("file and range", fp2(fp(&root), fp2(r.start, r.end)));
        c.add("ranged reads of huge files", 1);
        c.add("ranged reads", 1);
        c.max("bits of the largest file size", 64 - total.leading_zeros() as u64);
    }
    c.counts(fp(&root));
    Ok(())
}

fn r02(c: &mut Case) -> R {
    if c.idx % 8 == 7 {
        return r02_sparse(c);
    }
    let small = c.rng.one_in(3);
    let (store, f) = if small {
        let mut s = Shape::random(&mut c.rng);
        s.max_leaf = c.rng.usize(1, 3);
        if c.rng.bool() {
            s.leaves = Leaves::Counting;
        }
        let mut b = 6;
        let d = c.rng.usize(0, 4);
        let dag = crate::model::wild(&mut c.rng, &mut s, d, &mut b);
        let mut store = Store::default();
        let ink = Ink::random(&mut c.rng);
        let meta = Meta::sparse(&mut c.rng);
        let f = lay_file(&mut c.rng, &ink, &mut store, &dag, &meta);
        (store, f)
    } else {
        let x = random_file(&mut c.rng, false);
        (x.store, x.f)
    };
    c.describe(|| describe_file(&f));
    let n = f.total();
    let mut skipped = 0;
    let mut reads = 0;
    let mut one = |c: &mut Case, r: std::ops::Range<u64>| -> R {
        let log = ranged(&f, &store, r.clone())?;
        skipped += (f.blocks.len() - log.steps.len().min(f.blocks.len())) as u64;
        reads += 1;
        c.distinct("file and range", fp2(file_key(&f), fp2(r.start, r.end)));
        Ok(())
    };
    if n <= 14 {
        for a in 0..=n + 2 {
            for b in 0..=n + 2 {
                one(c, a..b)?;
            }
        }
        c.add("files with every range", 1);
    }
    let times = if f.blocks.len() > 500 { 10 } else { 60 };
    for _ in 0..times {
        let a = random_point(&mut c.rng, &f);
        let b = match c.rng.below(4) {
            0 => a.saturating_add(c.rng.below(4)),
            _ => random_point(&mut c.rng, &f),
        };
        let (a, b) = if a > b && !c.rng.one_in(6) { (b, a) } else { (a, b) };
        one(c, a..b)?;
    }
    c.add("ranged reads", reads);
    c.add("blocks spared", skipped);
    c.distinct("file shapes", shape(&f));
    c.counts(file_key(&f));
    Ok(())
}

// ---- R03 ---------------------------------------------------------------------------------------

/// `after` = new children of the block, then what was announced before without its head.
fn front(before: &[Vec<u8>], after: &[Vec<u8>], kids: &[Vec<u8>], all: bool, what: &dyn Fn() -> String) -> Result<u64, Fail> {
    let rest = &before[1..];
    ensure!(
        after.len() >= rest.len() && after[after.len() - rest.len()..] == *rest,
        "{}: what was announced before ({}) does not follow in what is announced now ({})",
        what(),
        before.iter().map(|c| tail(c)).collect::<Vec<_>>().join(" "),
        after.iter().map(|c| tail(c)).collect::<Vec<_>>().join(" ")
    );
    let new = &after[..after.len() - rest.len()];
    if all {
        ensure!(
            new == kids,
            "{}: newly announced {}, the block links to {}",
            what(),
            new.iter().map(|c| tail(c)).collect::<Vec<_>>().join(" "),
            kids.iter().map(|c| tail(c)).collect::<Vec<_>>().join(" ")
        );
    } else {
        let mut it = kids.iter();
        ensure!(
            new.iter().all(|n| it.any(|k| k == n)),
            "{}: newly announced {} are not links of the block in order",
            what(),
            new.iter().map(|c| tail(c)).collect::<Vec<_>>().join(" ")
        );
    }
    Ok(new.len() as u64)
}

fn visit_pending_rules(log: &VLog, root: &[u8], store: &Store, all: bool) -> Result<u64, Fail> {
    ensure!(log.err.is_none(), "visiting fails: {}", log.brief());
    let mut before = vec![root.to_vec()];
    let mut n = 0;
    for (i, s) in log.steps.iter().enumerate() {
        let what = || format!("after step {} of the visit", i);
        ensure!(before.first() == Some(&s.block), "{}: another block was requested than announced first", what());
        let kids = pbo::children(store.get(&s.block).unwrap());
        n += front(&before, &s.pending, &kids, all, &what)?;
        before = s.pending.clone();
    }
    ensure!(before.is_empty(), "the visit ended with {} announced blocks never requested", before.len());
    Ok(n)
}

fn walk_pending_rules(w: &WLog, root: &[u8], store: &Store) -> Result<u64, Fail> {
    ensure!(w.err.is_none(), "walking fails: {}", w.brief());
    let mut before = vec![root.to_vec()];
    let mut n = 0;
    for (i, s) in w.steps.iter().enumerate() {
        let what = || format!("after step {} of the walk ({})", i, s.ev.brief());
        ensure!(before.first() == Some(&s.ev.block), "{}: another block was requested than announced first", what());
        let kids = pbo::children(store.get(&s.ev.block).unwrap());
        n += front(&before, &s.pending, &kids, true, &what)?;
        before = s.pending.clone();
    }
    ensure!(before.is_empty(), "the walk ended with {} announced blocks never requested", before.len());
    Ok(n)
}

fn r03(c: &mut Case) -> R {
    match c.idx % 3 {
        0 => {
            let Filed { store, f } = random_file(&mut c.rng, false);
            c.describe(|| describe_file(&f));
            let log = visit(&store, f.root(), None, &mut None, f.blocks.len() + 3)?;
            let n = visit_pending_rules(&log, f.root(), &store, true)?;
            c.add("announcements in whole visits", n);
            for _ in 0..6 {
                let a = random_point(&mut c.rng, &f);
                let b = random_point(&mut c.rng, &f);
                let log = visit(&store, f.root(), Some(a.min(b)..a.max(b)), &mut None, f.blocks.len() + 3)?;
                let n = visit_pending_rules(&log, f.root(), &store, false)?;
                c.add("announcements in ranged visits", n);
            }
            c.counts(file_key(&f));
        }
        1 => {
            let mut store = Store::default();
            let ink = Ink::random(&mut c.rng);
            let mut g = TreeGen::random(&mut c.rng);
            let t = if c.rng.one_in(60) { g.extreme(&mut c.rng) } else { g.tree(&mut c.rng, 5) };
            let name = root_name(&mut c.rng);
            let laid = lay_tree(&mut c.rng, &ink, &mut store, &t, &(&name).into(), true);
            c.describe(|| format!("{:?}", t));
            let w = walk(&store, &laid.cid, &name, &mut None, laid.events.len() + 3)?;
            let n = walk_pending_rules(&w, &laid.cid, &store)?;
            c.add("announcements in walks", n);
            c.counts(fp(&laid.cid));
        }
        _ => {
            let s = super::lookups::random_sharded(&mut c.rng);
            let mut store = Store::default();
            let ink = Ink::random(&mut c.rng);
            let laid = lay_tree(&mut c.rng, &ink, &mut store, &s, &"".into(), true);
            c.describe(|| format!("{:?}", s));
            let needles = super::lookups::needles(&mut c.rng, &s);
            for needle in needles {
                let own_at = if c.rng.bool() { Some(c.rng.usize(1, 4)) } else { None };
                let log = crate::drive::lookup(&store, &laid.cid, &needle, &mut None, own_at, laid.events.len() + 3)?;
                c.add(
                    "lookups whose name is taken over on the way",
                    own_at.map(|n| n < log.steps.len()).unwrap_or(false) as u64,
                );
                let mut before = vec![laid.cid.clone()];
                for (i, (block, pending)) in log.steps.iter().enumerate() {
                    let last = i + 1 == log.steps.len();
                    ensure!(before.first() == Some(block), "lookup step {}: another block was requested than announced first", i);
                    let (node, _) = pbo::dec_node(store.get(block).unwrap()).expect("canonical");
                    let mut want: Vec<Vec<u8>> = before[1..].to_vec();
                    want.extend(
                        node.links
                            .iter()
                            .filter(|l| l.name_str().len() == 2)
                            .map(|l| l.hash_bytes().to_vec()),
                    );
                    match &log.end {
                        crate::drive::Found::Target(_) if last => {}
                        crate::drive::Found::No if last => {
                            ensure!(
                                want.is_empty(),
                                "looking up {:?} ends with not found, with {} buckets never requested",
                                needle,
                                want.len()
                            )
                        }
                        crate::drive::Found::Err(d, _) if last => {
                            return Err(Fail(format!("looking up {:?} fails: {}", needle, d)))
                        }
                        _ => {
                            ensure!(
                                *pending == want,
                                "looking up {:?}, step {}: announced {}, needed {}",
                                needle,
                                i,
                                pending.iter().map(|c| tail(c)).collect::<Vec<_>>().join(" "),
                                want.iter().map(|c| tail(c)).collect::<Vec<_>>().join(" ")
                            );
                        }
                    }
                    c.add("announcements in lookups", pending.len() as u64);
                    before = pending.clone();
                }
            }
            c.counts(fp(&laid.cid));
        }
    }
    Ok(())
}

// ---- R04 ---------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Defect {
    FewerSizes,
    MoreSizes,
    FewerLinks,
    SizesOnLeaf,
    NoContent,
    NoFileSize,
    ContentBesideLinks,
    InnerMeta,
    ShardProps,
    NotAFile,
    ExpandFirst,
    ExpandLater,
    LeafTooLong,
    LeafTooShort,
    GapInSizes,
    OverlapInSizes,
    Overflow,
    LeafOverflow,
    Truncated,
    NoMessage,
    BadMessage,
    BadLink,
}

use Defect::*;

const DEFECTS: &[Defect] = &[
    FewerSizes,
    MoreSizes,
    FewerLinks,
    SizesOnLeaf,
    NoContent,
    NoFileSize,
    ContentBesideLinks,
    InnerMeta,
    ShardProps,
    NotAFile,
    ExpandFirst,
    ExpandLater,
    LeafTooLong,
    LeafTooShort,
    GapInSizes,
    OverlapInSizes,
    Overflow,
    LeafOverflow,
    Truncated,
    NoMessage,
    BadMessage,
    BadLink,
];

/// Steps (in pre-order) at which the error may come, and the variants that name the defect: of
/// FileError when they start with "File(", else of the errors of visitor and walker.
struct Expect {
    first: usize,
    last: usize,
    kinds: Vec<&'static str>,
    /// Text the debug form has to contain.
    text: Vec<String>,
}

fn subtree_end(f: &FileModel, t: usize) -> usize {
    match f.blocks[t].kids.last() {
        Some(k) => subtree_end(f, *k),
        None => t,
    }
}

/// Applies the defect at node `t`; `None` when it does not fit there.
#[allow(clippy::too_many_arguments)]
fn apply(
    rng: &mut Rng,
    d: Defect,
    f: &FileModel,
    t: usize,
    links: &mut Vec<Link>,
    m: &mut Msg,
    out: &mut Option<Vec<u8>>,
) -> Option<Expect> {
    let b = &f.blocks[t];
    let inner = !b.is_leaf;
    let nonroot = t > 0;
    let mut e = Expect {
        first: t,
        last: t,
        kinds: vec![],
        text: vec![],
    };
    match d {
        FewerSizes if inner => {
            let n = rng.usize(1, m.blocksizes.len());
            for _ in 0..n {
                let i = rng.idx(m.blocksizes.len());
                m.blocksizes.remove(i);
            }
            e.kinds = vec!["LinksAndBlocksizesMismatch"];
        }
        MoreSizes if inner => {
            let i = rng.idx(m.blocksizes.len() + 1);
            let v = rng.below(3);
            m.blocksizes.insert(i, v);
            e.kinds = vec!["LinksAndBlocksizesMismatch"];
        }
        FewerLinks if inner => {
            let n = rng.usize(1, links.len());
            for _ in 0..n {
                let i = rng.idx(links.len());
                links.remove(i);
            }
            e.kinds = vec!["LinksAndBlocksizesMismatch"];
        }
        SizesOnLeaf if !inner => {
            if rng.bool() {
                m.blocksizes.push(b.end - b.start);
                m.filesize = Some(b.end - b.start);
            } else {
                m.blocksizes.extend([0, 1]);
            }
            e.kinds = vec!["LinksAndBlocksizesMismatch"];
        }
        NoContent if !inner => {
            m.data = if rng.bool() { None } else { Some(vec![]) };
            m.filesize = Some((b.end - b.start).max(1));
            e.kinds = vec!["NoLinksNoContent"];
        }
        NoFileSize if inner => {
            m.filesize = None;
            e.kinds = vec!["IntermediateNodeWithoutFileSize"];
            if b.start == b.end {
                // a size of zero and no size are told apart all the same
                e.kinds = vec!["IntermediateNodeWithoutFileSize"];
            }
        }
        ContentBesideLinks if inner => {
            let n = rng.usize(1, 9);
            m.data = Some(rng.bytes(n));
            // the sizes may take the content into account
            if rng.bool() {
                m.filesize = Some(m.filesize.unwrap_or(0) + n as u64);
            }
            e.kinds = vec!["File("];
        }
        InnerMeta if nonroot => {
            match rng.below(3) {
                0 => m.mode = Some(rng.wide() as u32),
                1 => m.mtime = Some((rng.wide() as i64, Some(3))),
                _ => {
                    m.mode = Some(0o644);
                    m.mtime = Some((0, None));
                }
            }
            e.kinds = vec!["NonRootDefinesMetadata"];
            if let Some(x) = m.mode {
                e.text.push(x.to_string());
            }
            if let Some((x, _)) = m.mtime {
                e.text.push(x.to_string());
            }
        }
        ShardProps => {
            let k = rng.below(3);
            if k != 1 {
                let v = *rng.pick(&[0, 34, 123_456_789]);
                m.hash_type = Some(v);
                e.text.push(v.to_string());
            }
            if k != 0 {
                let v = *rng.pick(&[0, 256, 987_654_321]);
                m.fanout = Some(v);
                e.text.push(v.to_string());
            }
            e.kinds = vec!["UnexpectedRawOrFileProperties"];
        }
        NotAFile if nonroot => {
            m.ty = Some(*rng.pick(&[pbo::DIR, pbo::META, pbo::SYMLINK, pbo::HAMT]));
            if rng.bool() {
                // as a proper one of its kind
                m.filesize = None;
                m.blocksizes.clear();
                if m.ty == Some(pbo::HAMT) {
                    m.hash_type = Some(34);
                    m.fanout = Some(256);
                }
            }
            e.kinds = vec!["UnexpectedType"];
        }
        ExpandFirst if inner => {
            // the first child alone reaches further than the node
            let over = m.filesize.unwrap() + 1 + rng.below(3);
            m.blocksizes[0] = over;
            if rng.bool() && over > 1 {
                m.filesize = Some(over - 1);
            }
            e.last = t + 1;
            e.kinds = vec!["TreeExpandsOnLinks"];
        }
        ExpandLater if inner && m.blocksizes.len() > 1 => {
            let i = rng.usize(1, m.blocksizes.len() - 1);
            let by = 1 + rng.below(3);
            if rng.bool() {
                m.blocksizes[i] += by;
            } else {
                let sum: u64 = m.blocksizes[..=i].iter().sum();
                let before: u64 = sum - m.blocksizes[i];
                // the node ends inside or before its child number i
                if sum == 0 || before == sum {
                    return None;
                }
                m.filesize = Some(rng.range(before.max(m.blocksizes[0]), sum - 1));
                if m.filesize.unwrap() < m.blocksizes[0] {
                    return None;
                }
            }
            e.last = b.kids[i];
            // a child of the same node which is a link block itself is told apart
            e.kinds = vec!["TreeExpandsOnLinks", "TreeOverlapsBetweenLinks"];
            if e.last == t {
                return None;
            }
        }
        LeafTooLong | LeafTooShort if !inner && subtree_end(f, 0) > t => {
            let span = b.end - b.start;
            let long = d == LeafTooLong;
            let declared = if long {
                span + 1 + rng.below(4)
            } else if span > 1 {
                rng.range(1, span - 1)
            } else {
                return None;
            };
            match (m.filesize.is_some(), rng.bool()) {
                (true, true) | (false, true) => m.filesize = Some(declared),
                (had, false) => {
                    // the content itself has another length
                    m.data = Some(rng.bytes(declared as usize));
                    m.filesize = if had { Some(declared) } else { None };
                }
            }
            if m.data.as_deref().unwrap_or_default().is_empty() {
                m.data = Some(rng.bytes(declared as usize));
            }
            e.first = t + 1;
            e.last = t + 1;
            e.kinds = if long {
                vec!["TreeJumpsBetweenLinks", "TreeOverlapsBetweenLinks", "EarlierLink"]
            } else {
                vec!["TreeJumpsBetweenLinks"]
            };
        }
        GapInSizes | OverlapInSizes if inner && m.blocksizes.len() > 1 => {
            let i = rng.idx(m.blocksizes.len() - 1);
            let kid_leaf = f.blocks[b.kids[i]].is_leaf;
            let _ = kid_leaf;
            let next = subtree_end(f, b.kids[i]) + 1;
            if d == GapInSizes {
                let by = rng.range(1, 3);
                m.blocksizes[i] += by;
                if m.blocksizes[i + 1] >= by && rng.bool() {
                    m.blocksizes[i + 1] -= by;
                } else {
                    // keep the sum within the node
                    m.filesize = Some(m.filesize.unwrap() + by);
                    if t > 0 {
                        // its own parent would have to grow as well: other defects cover that
                        return None;
                    }
                }
                e.kinds = vec!["TreeJumpsBetweenLinks", "TreeExpandsOnLinks", "TreeOverlapsBetweenLinks", "EarlierLink"];
                e.kinds = vec!["TreeJumpsBetweenLinks"];
            } else {
                let have = m.blocksizes[i];
                if have < 1 {
                    return None;
                }
                // an inner child would be larger than its slot: that is an expansion already
                let by = rng.range(1, have);
                m.blocksizes[i] -= by;
                e.kinds = vec!["TreeJumpsBetweenLinks", "TreeOverlapsBetweenLinks", "TreeExpandsOnLinks", "EarlierLink"];
                // may also be noticed on the way
                e.first = b.kids[i];
                e.last = next;
                return Some(e);
            }
            e.first = next;
            e.last = next;
        }
        Overflow if inner => {
            // sizes whose sum does not fit
            match rng.below(4) {
                3 if m.blocksizes.len() > 1 => {
                    // only the sum tells: nothing comes after the last one
                    let last = m.blocksizes.len() - 1;
                    let sum: u64 = m.blocksizes[..last].iter().sum();
                    if sum == 0 {
                        return None;
                    }
                    m.filesize = Some(u64::MAX);
                    m.blocksizes[last] = u64::MAX - rng.below(sum);
                    e.last = b.kids[last];
                    e.kinds = vec!["File("];
                }
                0 if m.blocksizes.len() > 1 => {
                    m.filesize = Some(u64::MAX);
                    m.blocksizes[0] = u64::MAX - rng.below(2);
                    m.blocksizes[1] = 2 + rng.below(5);
                    e.last = b.kids[1];
                    e.kinds = vec!["File("];
                }
                _ if b.start > 0 => {
                    m.filesize = Some(u64::MAX - rng.below(b.start));
                    e.kinds = vec!["File("];
                }
                _ => return None,
            }
        }
        LeafOverflow if !inner && b.start > 0 => {
            m.filesize = Some(u64::MAX - rng.below(b.start));
            if m.data.as_deref().unwrap_or_default().is_empty() {
                m.data = Some(vec![1]);
            }
            e.kinds = vec!["File("];
        }
        Truncated => {
            let block = pbo::enc_block(links, m);
            if block.len() < 3 {
                return None;
            }
            let cut = rng.usize(2, block.len() - 1);
            let cut = &block[..cut];
            if pbo::dec_node(cut) != Err(pbo::Bad::Malformed) {
                return None;
            }
            *out = Some(cut.to_vec());
            e.kinds = UNPARSABLE.to_vec();
        }
        NoMessage => {
            *out = Some(pbo::enc_node(&pbo::Node {
                links: links.clone(),
                data: if rng.bool() { None } else { Some(vec![]) },
            }));
            e.kinds = UNPARSABLE.to_vec();
        }
        BadMessage => {
            let bads: [&[u8]; 4] = [&[0x08], &[0x12, 0x05, 1], &[0x07], &[0x08, 0x02, 0x18, 0x80]];
            let bad = rng.pick(&bads);
            *out = Some(pbo::enc_node(&pbo::Node {
                links: links.clone(),
                data: Some(bad.to_vec()),
            }));
            e.kinds = UNPARSABLE.to_vec();
        }
        BadLink if inner => {
            let i = rng.idx(links.len());
            links[i].hash = if rng.bool() {
                None
            } else {
                let n = rng.usize(0, 5);
                Some(vec![0xff; n])
            };
            e.kinds = vec!["InvalidCid"];
            e.text.push(format!("nth: {}", i));
        }
        _ => return None,
    }
    Some(e)
}

/// Which of these is used differs between the interfaces.
const UNPARSABLE: &[&str] = &["Read(", "DagPbParsingFailed", "UnixFsParsingFailed", "EmptyDagPbNode"];

fn names(kinds: &[&str], debug: &str) -> bool {
    kinds.iter().any(|k| {
        if let Some(v) = k.strip_suffix('(') {
            variant(debug) == v
        } else if k.contains('(') {
            debug.starts_with(k)
        } else {
            let inner = debug.strip_prefix("File(").unwrap_or(debug);
            variant(inner) == *k
        }
    })
}

fn r04(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let mut s = Shape::random(rng);
    s.leaves = *rng.pick(&[Leaves::Counting, Leaves::Random]);
    let dag = crate::model::random_dag_with(rng, &mut s, false);
    let meta = Meta::sparse(rng);
    let ink = Ink::random(rng);
    let mut store = Store::default();
    // the intact file: what the steps before the error have to look like
    let seed = rng.next();
    let good = lay_file(&mut Rng::new(seed), &ink, &mut store, &dag, &meta);
    let d = DEFECTS[(c.idx % DEFECTS.len() as u64) as usize];
    let rng = &mut c.rng.clone();
    let mut exp = None;
    let mut bad = None;
    let mut t = 0;
    for _ in 0..12 {
        t = rng.idx(good.blocks.len());
        if rng.one_in(8) {
            t = 0;
        }
        let mut store2 = Store::default();
        let seed2 = rng.next();
        let f = lay_file_with(&mut Rng::new(seed), &ink, &mut store2, &dag, &meta, &mut |at, links, m| {
            if at != t {
                return None;
            }
            let mut out = None;
            exp = apply(&mut Rng::new(seed2), d, &good, t, links, m, &mut out);
            out
        });
        if exp.is_some() {
            bad = Some(f);
            store = store2;
            break;
        }
    }
    let (exp, bad) = match (exp, bad) {
        (Some(e), Some(b)) => (e, b),
        _ => {
            c.add("defect did not fit", 1);
            return Ok(());
        }
    };
    c.describe(|| {
        format!(
            "{:?} at block #{} of {}, block {}",
            d,
            t,
            describe_file(&good),
            hexs(store.get(&bad.blocks[t].cid).unwrap())
        )
    });
    let ctx = || format!("{:?} at block #{} of {} blocks", d, t, good.blocks.len());
    let judge = |steps: Vec<(&[u8], &[u8])>, err: Option<&str>, who: &str| -> R {
        for (i, (_, bytes)) in steps.iter().enumerate() {
            let want = good.blocks.get(i).map(|b| b.bytes.as_slice());
            // the block with the defect may return its content when the error is due only later
            if i != t {
                ensure!(
                    want == Some(bytes),
                    "{}: {} returns {} in step {}, the file has {:?} there",
                    ctx(),
                    who,
                    hexs(bytes),
                    i,
                    want.map(hexs)
                );
            }
        }
        let err = match err {
            Some(e) => e,
            None => return Err(Fail(format!("{}: {} ends without an error", ctx(), who))),
        };
        ensure!(
            (exp.first..=exp.last).contains(&steps.len()),
            "{}: {} reports {} at step {}, due at {}..={}",
            ctx(),
            who,
            err,
            steps.len(),
            exp.first,
            exp.last
        );
        ensure!(
            names(&exp.kinds, err),
            "{}: {} reports {}, which does not name the defect (one of {:?})",
            ctx(),
            who,
            err,
            exp.kinds
        );
        for x in &exp.text {
            ensure!(err.contains(x.as_str()), "{}: {} reports {} without {}", ctx(), who, err, x);
        }
        Ok(())
    };
    let limit = good.blocks.len() + 3;
    let v = visit(&store, bad.root(), None, &mut None, limit)?;
    judge(
        v.steps.iter().map(|s| (s.block.as_slice(), s.bytes.as_slice())).collect(),
        v.err.as_deref(),
        "the visitor",
    )?;
    c.distinct("error kinds", fp(v.err.as_deref().map(kind_path).unwrap_or_default().as_bytes()));
    let w = walk(&store, bad.root(), "", &mut None, limit)?;
    judge(
        w.steps.iter().map(|s| (s.ev.block.as_slice(), s.ev.bytes.as_slice())).collect(),
        w.err.as_ref().map(|(_, e)| e.as_str()),
        "the walker",
    )?;
    // inside of a directory, with a file before and one after it
    let leaf = pbo::enc_block(
        &[],
        &Msg {
            ty: Some(pbo::FILE),
            data: Some(b"x".to_vec()),
            filesize: Some(1),
            ..Default::default()
        },
    );
    let leaf = store.put(leaf, 0);
    let dir = pbo::enc_block(
        &[
            Link::new(&leaf, "a", 1),
            Link::new(bad.root(), "broken", 1),
            Link::new(&leaf, "z", 1),
        ],
        &Msg::of(pbo::DIR),
    );
    let dir = store.put(dir, 0);
    let w = walk(&store, &dir, "", &mut None, limit + 4)?;
    ensure!(
        w.steps.len() >= 2 && w.steps[1].ev.bytes == b"x",
        "{}: walking the directory around it does not even get to it: {}",
        ctx(),
        w.brief()
    );
    judge(
        w.steps[2..].iter().map(|s| (s.ev.block.as_slice(), s.ev.bytes.as_slice())).collect(),
        w.err.as_ref().map(|(_, e)| e.as_str()),
        "the walker in a directory",
    )?;
    if c.idx % 4 == 0 {
        // a file visit cannot start on a node which is no file at all
        let rng = &mut c.rng;
        let mut m = good.blocks[0].msg.clone();
        m.ty = Some(*rng.pick(&[pbo::DIR, pbo::META, pbo::SYMLINK, pbo::HAMT]));
        if rng.bool() {
            m.filesize = None;
            m.blocksizes.clear();
        }
        let links = &good.blocks[0].links;
        let links = if rng.bool() { &links[..] } else { &[] };
        let mut store = Store::default();
        let root = store.put(pbo::enc_block(links, &m), 0);
        let range = if rng.bool() { None } else { Some(rng.below(3)..rng.wide()) };
        let v = visit(&store, &root, range, &mut None, 2)?;
        ensure!(
            v.steps.is_empty() && v.err.as_deref().is_some_and(|e| names(&["UnexpectedType"], e)),
            "visiting a node of type {:?}: {}",
            m.ty,
            v.brief()
        );
        c.add("visits refused to start", 1);
    }
    c.add("errors judged", 3);
    c.add("steps before the error", (v.steps.len() + w.steps.len()) as u64);
    c.distinct("defect and position", fp2(c.idx % DEFECTS.len() as u64, fp2(t as u64, shape(&good))));
    c.counts(fp2(file_key(&good), fp2(c.idx % DEFECTS.len() as u64, t as u64)));
    Ok(())
}

fn kind_path(e: &str) -> String {
    let v = variant(e);
    match e.strip_prefix("File(") {
        Some(x) => format!("{}/{}", v, variant(x)),
        None => v.to_string(),
    }
}
