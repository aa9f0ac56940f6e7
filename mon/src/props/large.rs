//! Cases of unusual extent: more links, directories, chunks or levels than 16 bits count, longer
//! names and content than three bytes of length say, files beyond 32 bits. They are few and take
//! the place of some of the ordinary cases. The monitors in here compare every step with a model
//! which is unrolled while the operation runs, and the full announcements at some of the steps.

use super::{build, codec, Prop};
use crate::drive::{self, cid_from, inside, lend, observe, seen};
use crate::model::{Ev, Ink, Kind, Meta, MetaSeen, Sparse, Store};
use crate::pbo::{self, Link, Msg};
use crate::util::{self, fp, fp2, Rng};
use crate::{ensure, same, still_going, Case, Fail, Tier, R};
use std::collections::{HashMap, VecDeque};
use std::ops::Range;
use std::path::PathBuf;
use std::rc::Rc;
use unixfs_v1::dir::{self, MaybeResolved, MultipleMatchingLinks, ShardError};
use unixfs_v1::file::visit::{Cache, FileVisit, IdleFileVisit};
use unixfs_v1::walk::{self, Walker};
use unixfs_v1::{FlatUnixFs, LookupError, ResolveError};

/// How many of these cases there are in as many cases as a quick run has.
fn scenarios(id: &str) -> u64 {
    match id {
        "A01" | "A02" | "A03" | "A04" => 4,
        "B01" => 4,
        "B03" => 4,
        "B02" | "B04" => 3,
        "C01" | "C02" | "C03" => 60,
        "S01" => 10,
        "R01" | "R02" => 3,
        "R03" => 4,
        "R04" => 16,
        "W01" | "W02" | "W03" => 4,
        "D01" => 12,
        "D02" => 3,
        "D03" => 3,
        "D04" => 2,
        "D05" => 6,
        "E01" => 1,
        "X01" => 6,
        "X02" => 2,
        "X03" => 12,
        _ => 0,
    }
}

pub fn rule(p: &Prop) -> String {
    match scenarios(p.id) {
        0 => String::new(),
        n => format!(
            " {} in {} cases are of unusual extent: more links, sizes, names, directories, levels or chunks than 16 bits count, or names, data and files longer than short lengths say.",
            n, p.quick
        ),
    }
}

/// Which of them is this case, if any.
pub fn pick(p: &Prop, idx: u64, tier: Tier) -> Option<u64> {
    let n = scenarios(p.id);
    if n == 0 {
        return None;
    }
    // odd, so that they fall to different workers
    let mut m = p.quick / (n + 1) | 1;
    if tier == Tier::Thorough {
        m = m * 5 | 1;
    }
    if idx % m == m - 1 && (idx / m) % (n + 1) < n {
        Some((idx / m) % (n + 1))
    } else {
        None
    }
}

pub fn run(p: &Prop, c: &mut Case, k: u64) -> R {
    let r = &mut c.rng.clone();
    match p.id {
        "B01" | "B04" => return build::large(c, p.run),
        "B02" => return (p.run)(c),
        "B03" => {
            c.large = Some(99 + k);
            return build::large(c, build::b01);
        }
        "C01" | "C02" | "C03" => return codec::large(c, p.run),
        "A01" | "A02" | "A03" | "A04" | "S01" => {
            c.add("cases of unusual extent", 1);
            return (p.run)(c);
        }
        _ => {}
    }
    c.add("cases of unusual extent", 1);
    c.describe(|| format!("a case of unusual extent, number {}", k));
    c.counts(fp2(k, r.clone().next()));
    match p.id {
        "R01" => match k {
            0 => whole_file(c, r, false),
            1 => whole_file(c, r, true),
            _ => long_file(c, r),
        },
        "R02" => ranges(c, r),
        "R03" => match k {
            0 => whole_file(c, r, true),
            1 => tree(c, r, 0),
            2 => tree(c, r, 1),
            _ => lookups(c, r, true),
        },
        "R04" => broken_file(c, r, k),
        "W01" => tree(c, r, k),
        "W02" => bad_name(c, r, k),
        "W03" => match k {
            0 => tree(c, r, 3),
            1 => whole_file(c, r, false),
            _ => long_file(c, r),
        },
        "D01" => resolving(c, r, k),
        "D02" => lookups(c, r, k == 0),
        "D03" => refused(c, r),
        "D04" => agreement(c, r),
        "D05" => duplicates(c, r, k),
        "E01" => image(c, r),
        "X01" => bulk(c, r, k),
        "X02" => left_behind(c, r),
        "X03" => broken_link(c, r, k),
        _ => Err(Fail("no such case".into())),
    }
}

fn beyond(r: &mut Rng) -> usize {
    match r.below(3) {
        0 => r.usize(65_537, 65_545),
        1 => r.usize(65_600, 66_600),
        _ => r.usize(69_000, 71_000),
    }
}

/// Positions at which narrow numbers end, and others.
fn position(r: &mut Rng, n: usize) -> usize {
    let p = match r.below(10) {
        0 => 0,
        1 => 255,
        2 => 256,
        3 => 65_535,
        4 => 65_536,
        5 => n - 1,
        6 if n > 65_537 => r.usize(65_536, n - 1),
        _ => r.idx(n),
    };
    p.min(n - 1)
}

/// Looks at everything that is announced at fewer and fewer of the steps.
#[derive(Default)]
struct Now {
    step: u64,
    next: u64,
}

impl Now {
    fn is(&mut self) -> bool {
        let now = self.step >= self.next;
        self.step += 1;
        if now {
            self.next = self.step + self.step * 2 / 3;
        }
        now
    }
}

// ---- files -------------------------------------------------------------------------------------

/// A handful of leaves, linked to very often: below the root, or below nodes below the root.
fn shared_file(r: &mut Rng, store: &mut Store, n: usize, deep: bool, meta: bool) -> Sparse {
    let mut f = Sparse {
        nodes: Vec::new(),
        meta: if meta { Meta::sparse(r) } else { Meta::default() },
    };
    let ink = Ink::plain();
    let leaves = r.usize(2, 7);
    for i in 0..leaves {
        let len = r.usize(1, 6);
        let mut b = r.bytes(len);
        b[0] = i as u8;
        f.push(r, &ink, store, b, Vec::new(), false);
    }
    let many: Vec<usize> = (0..n).map(|_| r.idx(leaves)).collect();
    if deep {
        f.push(r, &ink, store, Vec::new(), vec![0, 1, 0], false);
        f.push(r, &ink, store, Vec::new(), many, false);
        let (few, wide) = (leaves, leaves + 1);
        let kids = vec![few, 0, wide, few, 1];
        f.push(r, &ink, store, Vec::new(), kids, true);
    } else {
        f.push(r, &ink, store, Vec::new(), many, true);
    }
    f
}

fn visit_pending(v: &FileVisit) -> Vec<Vec<u8>> {
    let (first, rest) = v.pending_links();
    std::iter::once(first).chain(rest).map(|c| c.to_bytes()).collect()
}

fn compare_announced(who: &str, step: u64, got: &[Vec<u8>], want: &[Vec<u8>]) -> R {
    ensure!(
        got == want,
        "{} announces {} links after step {}, expected are {}, first difference at {:?}",
        who,
        got.len(),
        step,
        want.len(),
        got.iter().zip(want).position(|(a, b)| a != b)
    );
    Ok(())
}

/// What the visit has to do next: node and where it begins.
type Due = Vec<(usize, u64)>;

fn due_cids(f: &Sparse, due: &Due) -> Vec<Vec<u8>> {
    due.iter().rev().map(|(n, _)| f.nodes[*n].cid.clone()).collect()
}

fn open(f: &Sparse, due: &mut Due, n: usize, start: u64, range: &Option<Range<u64>>) {
    let x = &f.nodes[n];
    let mut off = start + x.total;
    for k in x.kids.iter().rev() {
        let end = off;
        off -= f.nodes[*k].total;
        let out = match range {
            Some(r) => off.max(r.start) > end.min(r.end),
            None => false,
        };
        if !out {
            due.push((*k, off));
        }
    }
}

fn share<'a>(f: &'a Sparse, n: usize, start: u64, range: &Option<Range<u64>>) -> &'a [u8] {
    let x = &f.nodes[n];
    match range {
        Some(r) => {
            let (a, b) = (start.max(r.start), (start + x.total).min(r.end));
            if x.bytes.is_empty() || a >= b {
                &[]
            } else {
                &x.bytes[(a - start) as usize..(b - start) as usize]
            }
        }
        None => &x.bytes,
    }
}

/// The first `most` steps of a visit. The debug form of an error and the number of steps before it.
fn stream_visit(
    c: &mut Case,
    store: &Store,
    root: &[u8],
    f: &Sparse,
    range: Option<Range<u64>>,
    cache: &mut Option<Cache>,
    most: usize,
) -> Result<Option<(usize, String)>, Fail> {
    let mut idle = IdleFileVisit::default();
    if let Some(r) = range.clone() {
        idle = idle.with_target_range(r);
    }
    let top = f.nodes.len() - 1;
    let meta: MetaSeen = f.meta.seen();
    let mut due: Due = Vec::new();
    let mut now = Now::default();
    let mut steps = 0;
    let block = lend(store.get(root).expect("root"));
    let mut visit = match idle.start(&block) {
        Ok((bytes, total, m, next)) => {
            inside(&block, bytes)?;
            same!(bytes, share(f, top, 0, &range), "content of the first block");
            same!(total, f.root().total, "total size at the start");
            same!(seen(&m), meta, "metadata at the start");
            next
        }
        Err(e) => return Ok(Some((0, format!("{:?}", e)))),
    };
    drop(block);
    open(f, &mut due, top, 0, &range);
    while let Some(v) = visit.take() {
        steps += 1;
        same!(v.file_size(), f.root().total, "total size after step {}", steps);
        same!(seen(v.as_ref()), meta, "metadata after step {}", steps);
        let (n, start) = match due.last() {
            Some(d) => *d,
            None => return Err(Fail(format!("the visit goes on after the last block, step {}", steps))),
        };
        let want = &f.nodes[n];
        let first = v.pending_links().0.to_bytes();
        ensure!(
            first == want.cid,
            "step {} requests {}, expected {}",
            steps,
            util::hex(&first),
            util::hex(&want.cid)
        );
        if now.is() {
            compare_announced("a visit", steps as u64, &visit_pending(&v), &due_cids(f, &due))?;
            c.add("full announcements compared", 1);
        }
        if steps > most {
            return Ok(None);
        }
        due.pop();
        let block = lend(store.get(&first).expect("announced"));
        match v.continue_walk(&block, cache) {
            Ok((bytes, next)) => {
                inside(&block, bytes)?;
                ensure!(
                    bytes == share(f, n, start, &range),
                    "step {} gives {:?}, expected {:?}",
                    steps,
                    bytes,
                    share(f, n, start, &range)
                );
                visit = next;
            }
            Err(e) => return Ok(Some((steps, format!("{:?}", e)))),
        }
        open(f, &mut due, n, start, &range);
        if steps % 4096 == 0 {
            still_going();
        }
    }
    ensure!(due.is_empty(), "the visit ends with {} blocks to go, after step {}", due.len(), steps);
    c.add("steps of large cases", steps as u64);
    Ok(None)
}

fn no_error(what: &str, r: Option<(usize, String)>) -> R {
    match r {
        None => Ok(()),
        Some((n, e)) => Err(Fail(format!("{} fails at step {}: {}", what, n, e))),
    }
}

/// Reads an import back, whatever its layout.
pub(super) fn read_back(c: &mut Case, store: &Store, root: &[u8], data: &[u8]) -> R {
    let mut at = 0;
    let mut take = |bytes: &[u8]| -> R {
        ensure!(
            data.len() - at >= bytes.len() && data[at..at + bytes.len()] == *bytes,
            "{} bytes were imported, other bytes are read back at {}",
            data.len(),
            at
        );
        at += bytes.len();
        Ok(())
    };
    let block = lend(store.get(root).expect("root"));
    let (bytes, total, _, mut next) = IdleFileVisit::default()
        .start(&block)
        .map_err(|e| Fail(format!("reading back fails at the root: {:?}", e)))?;
    take(bytes)?;
    same!(total, data.len() as u64, "total size at the start");
    drop(block);
    let mut cache = None;
    let mut steps = 0u64;
    while let Some(v) = next.take() {
        same!(v.file_size(), data.len() as u64, "total size after block {} of the read", steps);
        let cid = v.pending_links().0.to_bytes();
        let block = lend(store.get(&cid).ok_or_else(|| Fail("requests what was not emitted".into()))?);
        let (bytes, n) = v
            .continue_walk(&block, &mut cache)
            .map_err(|e| Fail(format!("reading back fails at block {}: {:?}", steps, e)))?;
        take(bytes)?;
        next = n;
        steps += 1;
        ensure!(steps < 4 * data.len() as u64 + 9, "the read does not come to an end");
    }
    same!(at, data.len(), "bytes read back");
    c.add("blocks read back", steps + 1);
    c.counts(fp2(fp(root), steps));
    Ok(())
}

fn whole_file(c: &mut Case, r: &mut Rng, deep: bool) -> R {
    let mut big = Big::default();
    let n = beyond(r);
    let f = shared_file(r, &mut big.store, n, deep, true);
    let root = f.root().cid.clone();
    let mut cache = Some(Cache::default());
    let e = stream_visit(c, &big.store, &root, &f, None, &mut cache, usize::MAX)?;
    no_error("the visit", e)?;
    let top = big.file(f);
    stream_walk(c, &big, top, "name", &mut None, usize::MAX)
}

/// Beyond 32 bits, from its beginning.
fn long_file(c: &mut Case, r: &mut Rng) -> R {
    let mut big = Big::default();
    let f = loop {
        let f = Sparse::random(r, &Ink::plain(), &mut big.store);
        if f.root().total >> 33 > 0 {
            break f;
        }
    };
    let root = f.root().cid.clone();
    let steps = r.usize(300, 3000);
    let e = stream_visit(c, &big.store, &root, &f, None, &mut None, steps)?;
    no_error("the visit", e)?;
    let file = big.file(f);
    let dir = big.dir(r, vec![("a".into(), file), ("b".into(), file)]);
    stream_walk(c, &big, file, "", &mut None, steps)?;
    stream_walk(c, &big, dir, "root", &mut Some(Cache::default()), steps)
}

fn ranges(c: &mut Case, r: &mut Rng) -> R {
    let mut store = Store::default();
    let n = beyond(r);
    let deep = r.bool();
    let f = shared_file(r, &mut store, n, deep, true);
    let root = f.root().cid.clone();
    let total = f.root().total;
    let mut cache = None;
    for i in 0..8 {
        let a = match i {
            0 => 0,
            1 => total - r.range(1, 9),
            _ => r.below(total),
        };
        let b = match r.below(4) {
            0 => a + r.below(20),
            1 => total,
            2 => a,
            _ => r.range(a, total + 2),
        };
        let e = stream_visit(c, &store, &root, &f, Some(a..b), &mut cache, usize::MAX)?;
        no_error(&format!("visiting {}..{} of {}", a, b, total), e)?;
        c.add("ranges", 1);
    }
    Ok(())
}

/// A few leaves under a root which says something wrong about very many.
fn broken_file(c: &mut Case, r: &mut Rng, k: u64) -> R {
    let mut big = Big::default();
    let leaf = |b: &[u8]| {
        let mut m = Msg::of(pbo::FILE);
        m.data = Some(b.to_vec());
        m.filesize = Some(b.len() as u64);
        pbo::enc_block(&[], &m)
    };
    let one = big.store.put(leaf(b"x"), 0);
    let bad_root = |links: usize, sizes: usize, total: u64, data: Option<&[u8]>| {
        let mut m = Msg::of(pbo::FILE);
        m.filesize = Some(total);
        m.blocksizes = vec![1; sizes];
        m.data = data.map(|d| d.to_vec());
        let links: Vec<Link> = (0..links).map(|_| Link::new(&one, "", 9)).collect();
        pbo::enc_block(&links, &m)
    };
    if k < 11 {
        let few = r.usize(1, 3);
        let wrap = *r.pick(&[256, 65_536, 65_536]);
        let (links, sizes) = match k % 3 {
            0 => (few + wrap, few),
            1 => (few, few + wrap),
            _ => {
                let n = beyond(r);
                (n, n - 1)
            }
        };
        let (block, want) = if k < 6 {
            (bad_root(links, sizes, sizes as u64, None), "LinksAndBlocksizesMismatch")
        } else {
            // content beside all of the links
            let n = if k == 10 { 65_536 } else { links };
            let data = vec![b'c'; if k % 2 == 0 { 1 } else { 70_000 }];
            (bad_root(n, n, n as u64, Some(&data)), "ContentBesideLinks")
        };
        let root = big.store.put(block, 0);
        return refused_file(c, &big.store, &root, want);
    }
    // a leaf far in is not what its parent says
    let n = beyond(r);
    let at = position(r, n).max(1);
    let mut f = shared_file(r, &mut big.store, n, false, true);
    let mut kids = f.nodes.last().unwrap().kids.clone();
    let victim = kids[at];
    let old = f.nodes[victim].bytes.clone();
    let mut m = Msg::of(pbo::FILE);
    let bytes = old.clone();
    let want: &[&str] = match k % 2 {
        0 => {
            Meta {
                mode: Some(0o644),
                mtime: None,
            }
            .into_msg(&mut m);
            &["NonRootDefinesMetadata"]
        }
        _ => {
            m.ty = Some(pbo::DIR);
            &["UnexpectedType"]
        }
    };
    m.data = Some(bytes);
    if m.ty == Some(pbo::DIR) {
        m.data = None;
    } else {
        m.filesize = m.data.as_ref().map(|d| d.len() as u64);
    }
    let bad = big.store.put(pbo::enc_block(&[], &m), 0);
    f.nodes.push(crate::model::SparseNode {
        cid: bad.clone(),
        total: f.nodes[victim].total,
        bytes: old,
        kids: Vec::new(),
    });
    let bad_at = f.nodes.len() - 1;
    kids[at] = bad_at;
    let mut rm = Msg::of(pbo::FILE);
    rm.filesize = Some(kids.iter().map(|k| f.nodes[*k].total).sum());
    rm.blocksizes = kids.iter().map(|k| f.nodes[*k].total).collect();
    let links: Vec<Link> = kids.iter().map(|k| Link::new(&f.nodes[*k].cid, "", 1)).collect();
    f.meta = Meta::default();
    let root = big.store.put(pbo::enc_block(&links, &rm), 0);
    f.nodes.push(crate::model::SparseNode {
        cid: root.clone(),
        total: rm.filesize.unwrap(),
        bytes: Vec::new(),
        kids,
    });
    let got = stream_visit(c, &big.store, &root, &f, None, &mut None, usize::MAX)?;
    match &got {
        Some((step, e)) if *step == at + 1 && want.iter().any(|w| e.contains(w)) => {}
        _ => {
            return Err(Fail(format!(
                "leaf {} of {} is broken ({:?}), the visit ends with {:?}",
                at, n, want, got
            )))
        }
    }
    let mut w = Walker::new(cid_from(&root), "x".into());
    let mut cache = None;
    for i in 0.. {
        let cid = w.pending_links().0.to_bytes();
        let block = lend(big.store.get(&cid).expect("announced"));
        match w.next(&block, &mut cache) {
            Ok(_) => ensure!(i <= at, "the walk does not notice that leaf {} is broken ({:?})", at, want),
            Err(e) => {
                let e = format!("{:?}", e);
                ensure!(
                    i == at + 1 && want.iter().any(|w| e.contains(w)),
                    "leaf {} is broken ({:?}), the walk fails at step {} with {}",
                    at,
                    want,
                    i,
                    e
                );
                break;
            }
        }
    }
    c.add("broken files", 1);
    Ok(())
}

fn refused_file(c: &mut Case, store: &Store, root: &[u8], want: &str) -> R {
    let block = store.get(root).expect("root");
    match IdleFileVisit::default().start(block) {
        Ok(_) => return Err(Fail(format!("a visit starts, expected {}", want))),
        Err(e) => {
            let e = format!("{:?}", e);
            ensure!(e.contains(want), "a visit fails with {:.300}, expected {}", e, want);
        }
    }
    let mut w = Walker::new(cid_from(root), String::new());
    let r = w.next(block, &mut None).map(|_| ()).map_err(|e| format!("{:?}", e));
    match r {
        Ok(_) => return Err(Fail(format!("a walk goes on, expected {}", want))),
        Err(e) => ensure!(e.contains(want), "a walk fails with {:.300}, expected {}", e, want),
    }
    c.add("broken files", 1);
    Ok(())
}

// ---- trees -------------------------------------------------------------------------------------

enum Item {
    Dir {
        cid: Vec<u8>,
        meta: Option<MetaSeen>,
        kind: Kind,
        /// Without a name: a bucket.
        kids: Rc<Vec<(Option<Rc<str>>, usize)>>,
    },
    Symlink {
        cid: Vec<u8>,
        target: Vec<u8>,
        meta: MetaSeen,
    },
    File(Rc<Sparse>),
}

#[derive(Default)]
struct Big {
    store: Store,
    items: Vec<Item>,
}

impl Big {
    fn cid(&self, i: usize) -> &[u8] {
        match &self.items[i] {
            Item::Dir { cid, .. } | Item::Symlink { cid, .. } => cid,
            Item::File(f) => &f.root().cid,
        }
    }

    fn add(&mut self, i: Item) -> usize {
        self.items.push(i);
        self.items.len() - 1
    }

    fn file(&mut self, f: Sparse) -> usize {
        self.add(Item::File(Rc::new(f)))
    }

    fn symlink(&mut self, r: &mut Rng, target: &str) -> usize {
        let mut m = Msg::of(pbo::SYMLINK);
        m.data = Some(target.as_bytes().to_vec());
        let meta = Meta::sparse(r);
        meta.into_msg(&mut m);
        let cid = self.store.put(pbo::enc_block(&[], &m), 0);
        self.add(Item::Symlink {
            cid,
            target: target.as_bytes().to_vec(),
            meta: meta.seen(),
        })
    }

    /// What directories here link to again and again.
    fn pool(&mut self, r: &mut Rng) -> Vec<usize> {
        let mut out = vec![self.symlink(r, "a"), self.symlink(r, "../b"), self.symlink(r, "c/c/c")];
        let mut f = Sparse {
            nodes: Vec::new(),
            meta: Meta::sparse(r),
        };
        f.push(r, &Ink::plain(), &mut self.store, b"content".to_vec(), Vec::new(), true);
        out.push(self.file(f));
        let f = shared_file(r, &mut self.store, 3, false, true);
        out.push(self.file(f));
        let d = self.dir(r, vec![("in".into(), 0)]);
        out.push(d);
        out
    }

    fn dir(&mut self, r: &mut Rng, kids: Vec<(String, usize)>) -> usize {
        let mut m = Msg::of(pbo::DIR);
        let meta = Meta::sparse(r);
        meta.into_msg(&mut m);
        let links: Vec<Link> = kids.iter().map(|(n, i)| Link::new(self.cid(*i), n, r.wide())).collect();
        let cid = self.store.put(pbo::enc_block(&links, &m), 0);
        self.add(Item::Dir {
            cid,
            meta: Some(meta.seen()),
            kind: Kind::Dir,
            kids: Rc::new(kids.into_iter().map(|(n, i)| (Some(n.into()), i)).collect()),
        })
    }

    /// Entries with `Some` name, buckets without, each with the two digits in front.
    fn shard(&mut self, r: &mut Rng, kids: Vec<(u8, Option<String>, usize)>, root: bool) -> usize {
        let mut m = Msg::hamt();
        let meta = if root { Meta::sparse(r) } else { Meta::default() };
        meta.into_msg(&mut m);
        let links: Vec<Link> = kids
            .iter()
            .map(|(b, n, i)| {
                let n = format!("{:02X}{}", b, n.as_deref().unwrap_or(""));
                Link::new(self.cid(*i), &n, r.wide())
            })
            .collect();
        let cid = self.store.put(pbo::enc_block(&links, &m), 0);
        self.add(Item::Dir {
            cid,
            meta: if root { Some(meta.seen()) } else { None },
            kind: if root { Kind::Root } else { Kind::Bucket },
            kids: Rc::new(kids.into_iter().map(|(_, n, i)| (n.map(|n| n.into()), i)).collect()),
        })
    }

    /// Placed by their hashes.
    fn hashed(&mut self, r: &mut Rng, kids: Vec<(String, usize)>, level: usize) -> usize {
        let mut by: Vec<Vec<(String, usize)>> = (0..256).map(|_| Vec::new()).collect();
        for k in kids {
            let h = util::murmur3_h1(k.0.as_bytes()).to_be_bytes();
            by[h[level] as usize].push(k);
        }
        let mut slots = Vec::new();
        for (b, mut g) in by.into_iter().enumerate() {
            match g.len() {
                0 => {}
                1 => {
                    let (n, i) = g.pop().unwrap();
                    slots.push((b as u8, Some(n), i));
                }
                _ => {
                    let i = self.hashed(r, g, level + 1);
                    slots.push((b as u8, None, i));
                }
            }
        }
        self.shard(r, slots, level == 0)
    }
}

fn many_names(r: &mut Rng, n: usize) -> Vec<String> {
    let p = *r.pick(&["", "n", "é", "file-", "..", "\u{1f980}"]);
    let mut v: Vec<String> = (0..n).map(|i| format!("{}{}", p, i)).collect();
    if r.bool() {
        r.shuffle(&mut v);
    }
    v
}

/// What a walk has to do next.
struct Todo {
    /// Of the directory above, joined with the name.
    path: Rc<PathBuf>,
    name: Option<Rc<str>>,
    what: What,
}

#[derive(Clone, Copy)]
enum What {
    Item(usize),
    /// A block of the file begun last.
    Part(usize, usize),
}

fn todo_cid<'b>(big: &'b Big, t: &Todo) -> &'b [u8] {
    match t.what {
        What::Item(i) => big.cid(i),
        What::Part(i, n) => match &big.items[i] {
            Item::File(f) => &f.nodes[n].cid,
            _ => unreachable!(),
        },
    }
}

/// The first `most` steps of a walk.
fn stream_walk(c: &mut Case, big: &Big, top: usize, name: &str, cache: &mut Option<Cache>, most: usize) -> R {
    let mut w = Walker::new(cid_from(big.cid(top)), name.to_string());
    let mut stack = vec![Todo {
        path: Rc::new(PathBuf::from(name)),
        name: None,
        what: What::Item(top),
    }];
    let mut now = Now::default();
    let mut steps = 0;
    while w.should_continue() {
        if now.is() {
            let want: Vec<Vec<u8>> = stack.iter().rev().map(|t| todo_cid(big, t).to_vec()).collect();
            compare_announced("a walk", steps as u64, &drive::walk_pending(&w), &want)?;
            c.add("full announcements compared", 1);
        }
        if steps == most {
            return Ok(());
        }
        steps += 1;
        let t = match stack.pop() {
            Some(t) => t,
            None => return Err(Fail(format!("the walk goes on after step {}", steps))),
        };
        let want_cid = todo_cid(big, &t);
        let cid = w.pending_links().0.to_bytes();
        ensure!(
            cid == want_cid,
            "step {} of the walk requests {}, expected {}",
            steps,
            util::hex(&cid),
            util::hex(want_cid)
        );
        let path = match &t.name {
            Some(n) => Rc::new(t.path.join(&**n)),
            None => t.path.clone(),
        };
        let mut want = Ev::bare(Kind::Dir, &cid, &path);
        match t.what {
            What::Item(i) => match &big.items[i] {
                Item::Dir { meta, kind, kids, .. } => {
                    want.kind = if steps == 1 && *kind == Kind::Dir { Kind::Root } else { *kind };
                    want.meta = *meta;
                    for (n, k) in kids.iter().rev() {
                        stack.push(Todo {
                            path: path.clone(),
                            name: n.clone(),
                            what: What::Item(*k),
                        });
                    }
                }
                Item::Symlink { target, meta, .. } => {
                    want.kind = Kind::Symlink;
                    want.meta = Some(*meta);
                    want.bytes = target.clone();
                }
                Item::File(f) => part(f, i, f.nodes.len() - 1, &path, &mut stack, &mut want),
            },
            What::Part(i, n) => match &big.items[i] {
                Item::File(f) => part(f, i, n, &path, &mut stack, &mut want),
                _ => unreachable!(),
            },
        }
        if want.kind == Kind::File {
            want.last = !matches!(stack.last(), Some(Todo { what: What::Part(..), .. }));
        }
        let block = lend(big.store.get(&cid).ok_or_else(|| Fail("an unknown block is requested".into()))?);
        let ev = match w.next(&block, cache) {
            Ok(item) => observe(&item, &block, &cid)?,
            Err(e) => return Err(Fail(format!("step {} of the walk fails: {:?}", steps, e))),
        };
        ensure!(
            ev == want,
            "step {} of the walk: got {}, expected {}",
            steps,
            ev.brief(),
            want.brief()
        );
        if steps % 4096 == 0 {
            still_going();
        }
    }
    ensure!(stack.is_empty(), "the walk ends with {} blocks to go, after step {}", stack.len(), steps);
    c.add("steps of large cases", steps as u64);
    Ok(())
}

fn part(f: &Sparse, item: usize, n: usize, path: &Rc<PathBuf>, stack: &mut Vec<Todo>, want: &mut Ev) {
    let top = n + 1 == f.nodes.len();
    want.kind = Kind::File;
    want.cid = f.root().cid.clone();
    want.meta = Some(f.meta.seen());
    want.bytes = f.nodes[n].bytes.clone();
    want.total = f.root().total;
    want.first = top;
    for k in f.nodes[n].kids.iter().rev() {
        stack.push(Todo {
            path: path.clone(),
            name: None,
            what: What::Part(item, *k),
        });
    }
}

fn crowd(r: &mut Rng, big: &mut Big, n: usize) -> Vec<(String, usize)> {
    let pool = big.pool(r);
    many_names(r, n).into_iter().map(|s| (s, *r.pick(&pool))).collect()
}

fn tree(c: &mut Case, r: &mut Rng, k: u64) -> R {
    let mut big = Big::default();
    let n = beyond(r);
    let top = match k {
        0 => {
            let kids = crowd(r, &mut big, n);
            big.dir(r, kids)
        }
        1 => {
            let kids = crowd(r, &mut big, n);
            big.hashed(r, kids, 0)
        }
        2 => {
            // far down
            let levels = r.usize(4100, 4500);
            let pool = big.pool(r);
            let mut at = pool[0];
            let (mut style, mut run) = (0, r.usize(300, 600));
            for i in 0..levels {
                let side = *r.pick(&pool);
                if run == 0 {
                    // after levels without anything beside them the walk returns from far below
                    style = if style == 0 { r.below(4) } else { 0 };
                    run = if style == 0 { r.usize(1, 600) } else { r.usize(1, 40) };
                }
                run -= 1;
                at = match style {
                    0 if r.bool() => big.shard(r, vec![(i as u8, Some("d".into()), at)], true),
                    0 => big.dir(r, vec![("d".into(), at)]),
                    1 => big.dir(r, vec![("a".into(), side), ("d".into(), at), ("é".into(), side)]),
                    2 => {
                        let rest = big.shard(r, vec![(5, Some("w".into()), side)], false);
                        big.shard(r, vec![(i as u8, Some("x".into()), at), (7, None, rest)], true)
                    }
                    _ => {
                        let mut s = big.shard(r, vec![(i as u8, Some("x".into()), at), (3, Some("y".into()), side)], false);
                        if r.bool() {
                            s = big.shard(r, vec![(9, None, s)], false);
                        }
                        big.shard(r, vec![(7, None, s), (8, Some("z".into()), side)], true)
                    }
                };
            }
            // and at last to the top
            if r.bool() {
                at = big.dir(r, vec![("a".into(), at), ("b".into(), pool[1])]);
            } else {
                let rest = big.shard(r, vec![(5, Some("w".into()), pool[1])], false);
                at = big.shard(r, vec![(2, Some("a".into()), at), (7, None, rest)], true);
            }
            at
        }
        _ => {
            // a file of very many blocks among others
            let deep = r.bool();
            let f = shared_file(r, &mut big.store, n, deep, true);
            let f = big.file(f);
            let pool = big.pool(r);
            let inner = big.dir(r, vec![("f".into(), f), ("g".into(), pool[1])]);
            big.dir(r, vec![("a".into(), pool[3]), ("b".into(), inner), ("c".into(), pool[4])])
        }
    };
    let mut cache = if r.bool() { Some(Cache::default()) } else { None };
    stream_walk(c, &big, top, "root/name", &mut cache, usize::MAX)
}

/// One name among very many, or a very long one, which is none.
fn bad_name(c: &mut Case, r: &mut Rng, k: u64) -> R {
    let mut big = Big::default();
    let n = beyond(r);
    let at = position(r, n);
    let long = "x".repeat(70_000);
    let bad = match k {
        0 => r.pick(&["", ".", "..", "/"]).to_string(),
        1 => format!("{}/", long),
        2 => format!("/{}", long),
        _ => format!("{}/{}", long, long),
    };
    let mut kids = crowd(r, &mut big, n);
    if k == 3 {
        // a long name is fine
        let pool: Vec<(String, usize)> = vec![(long.clone(), 0), (format!("{}é", long), 1), ("a".into(), 3)];
        let d = big.dir(r, pool.clone());
        let s = big.hashed(r, pool, 0);
        let both = big.dir(r, vec![(long.clone(), d), ("s".into(), s)]);
        stream_walk(c, &big, both, &long, &mut None, usize::MAX)?;
    }
    kids[at].0 = bad.clone();
    let (block, shown) = if r.bool() {
        let links: Vec<Link> = kids.iter().map(|(n, i)| Link::new(big.cid(*i), n, 1)).collect();
        (pbo::enc_block(&links, &Msg::of(pbo::DIR)), bad)
    } else {
        let links: Vec<Link> = kids.iter().map(|(n, i)| Link::new(big.cid(*i), &format!("A0{}", n), 1)).collect();
        // two digits and nothing more are a bucket
        if bad.is_empty() {
            let links: Vec<Link> = kids
                .iter()
                .map(|(n, i)| Link::new(big.cid(*i), &if n.is_empty() { "A".into() } else { format!("A0{}", n) }, 1))
                .collect();
            (pbo::enc_block(&links, &Msg::hamt()), "A".into())
        } else {
            (pbo::enc_block(&links, &Msg::hamt()), format!("A0{}", bad))
        }
    };
    let root = big.store.put(block, 0);
    let mut w = Walker::new(cid_from(&root), "r".into());
    let r = w.next(big.store.get(&root).unwrap(), &mut None).map(|_| ());
    match &r {
        Err(walk::Error::InvalidLinkName(nth, name)) if *nth == at && (*name == shown) => {}
        Err(walk::Error::InvalidLinkName(nth, name)) => {
            return Err(Fail(format!(
                "the name of link {} of {} is none ({:.60}), reported is {} {:.60}",
                at, n, shown, nth, name
            )))
        }
        _ => return Err(Fail(format!("the name of link {} of {} is none ({:.60}), the walk gives {:.200}", at, n, shown, format!("{:?}", r)))),
    }
    c.add("names refused", 1);
    Ok(())
}

// ---- lookups -----------------------------------------------------------------------------------

/// Breadth first through the buckets.
fn stream_lookup(c: &mut Case, r: &mut Rng, big: &Big, top: usize, needle: &str, cache: &mut Option<dir::Cache>) -> R {
    let mut queue: VecDeque<usize> = VecDeque::new();
    queue.push_back(top);
    let mut going: Option<dir::ShardedLookup<'_>> = None;
    let mut now = Now::default();
    let own = r.idx(400);
    let mut steps = 0;
    while let Some(i) = queue.pop_front() {
        let (cid, kids) = match &big.items[i] {
            Item::Dir { cid, kids, .. } => (cid, kids),
            _ => unreachable!(),
        };
        let mut target = None;
        for (n, k) in kids.iter() {
            match n {
                Some(n) if **n == *needle => target = Some(big.cid(*k)),
                None => queue.push_back(*k),
                _ => {}
            }
        }
        let block = lend(big.store.get(cid).expect("bucket"));
        let said: Result<MaybeResolved<'_>, String> = match going.take() {
            None => unixfs_v1::resolve(&block, needle, cache).map_err(|e| format!("{:?}", e)),
            Some(l) => {
                let first = l.pending_links().0.to_bytes();
                ensure!(first == *cid, "step {} of the lookup requests another bucket", steps);
                l.continue_walk(&block, cache).map_err(|e| format!("{:?}", e))
            }
        };
        steps += 1;
        match (said, target) {
            (Ok(MaybeResolved::Found(got)), Some(want)) => {
                ensure!(got.to_bytes() == want, "{:?} resolves to the target of another entry", needle);
                c.add("steps of large cases", steps);
                return Ok(());
            }
            (Ok(MaybeResolved::NeedToLoadMore(l)), None) if !queue.is_empty() => {
                let l = if steps as usize == own { l.with_owned_needle() } else { l };
                if now.is() {
                    let (first, rest) = l.pending_links();
                    let got: Vec<Vec<u8>> = std::iter::once(first).chain(rest).map(|c| c.to_bytes()).collect();
                    let want: Vec<Vec<u8>> = queue.iter().map(|i| big.cid(*i).to_vec()).collect();
                    compare_announced("a lookup", steps, &got, &want)?;
                    c.add("full announcements compared", 1);
                }
                going = Some(l);
            }
            (Ok(MaybeResolved::NotFound), None) if queue.is_empty() => {
                c.add("steps of large cases", steps);
                return Ok(());
            }
            (x, t) => {
                let x = match x {
                    Ok(MaybeResolved::Found(_)) => "Found".to_string(),
                    Ok(MaybeResolved::NotFound) => "NotFound".to_string(),
                    Ok(MaybeResolved::NeedToLoadMore(_)) => "NeedToLoadMore".to_string(),
                    Err(e) => e,
                };
                return Err(Fail(format!(
                    "step {} of the lookup of {:?} gives {:.200}, expected a target: {}, buckets left: {}",
                    steps,
                    needle,
                    x,
                    t.is_some(),
                    queue.len()
                )));
            }
        }
    }
    Err(Fail("the model came to no end".into()))
}

fn lookups(c: &mut Case, r: &mut Rng, buckets: bool) -> R {
    let mut big = Big::default();
    let n = beyond(r);
    let pool = big.pool(r);
    let mut cache = drive::dir_cache(VecDeque::new());
    if buckets {
        // the same few buckets very often
        let some: Vec<usize> = (0..4u8)
            .map(|i| big.shard(r, vec![(i, Some(format!("in{}", i)), pool[i as usize])], false))
            .collect();
        let mut kids: Vec<(u8, Option<String>, usize)> = (0..n).map(|i| (i as u8, None, some[r.idx(3)])).collect();
        kids.push((4, Some("last".into()), pool[4]));
        kids.push((4, None, some[3]));
        let top = big.shard(r, kids, true);
        for needle in ["in3", "last", "in0", "none"] {
            stream_lookup(c, r, &big, top, needle, &mut cache)?;
        }
        return Ok(());
    }
    let kids: Vec<(String, usize)> = many_names(r, n).into_iter().map(|s| (s, *r.pick(&pool))).collect();
    let names: Vec<String> = kids.iter().map(|k| k.0.clone()).collect();
    // placed by their hashes, or all in one block
    let tops = [
        big.hashed(r, kids.clone(), 0),
        big.shard(r, kids.into_iter().enumerate().map(|(i, (n, k))| (i as u8, Some(n), k)).collect(), true),
    ];
    for top in tops {
        for _ in 0..4 {
            let at = position(r, n);
            stream_lookup(c, r, &big, top, &names[at], &mut cache)?;
        }
        stream_lookup(c, r, &big, top, "none", &mut cache)?;
    }
    Ok(())
}

fn resolved(r: Result<MaybeResolved<'_>, ResolveError>) -> String {
    match r {
        Ok(MaybeResolved::Found(c)) => format!("found {}", util::hex(&c.to_bytes())),
        Ok(MaybeResolved::NotFound) => "not found".into(),
        Ok(MaybeResolved::NeedToLoadMore(_)) => "more".into(),
        Err(ResolveError::Lookup(LookupError::Multiple(MultipleMatchingLinks::Two { first, second }))) => format!(
            "two {} {} {} {}",
            first.0,
            util::hex(&first.1.to_bytes()),
            second.0,
            util::hex(&second.1.to_bytes())
        ),
        Err(e) => format!("error {:?}", e),
    }
}

fn own_cid(i: usize) -> Vec<u8> {
    util::cid_of(&i.to_le_bytes())
}

/// Plain directories and nodes with very many links, long names, long data.
fn resolving(c: &mut Case, r: &mut Rng, k: u64) -> R {
    let n = match k % 3 {
        0 => beyond(r),
        1 => r.usize(1000, 40_000),
        _ => r.usize(2, 9),
    };
    let long = "l".repeat(70_000);
    let mut names = many_names(r, n);
    if r.bool() {
        let i = position(r, n);
        names[i] = long.clone();
    }
    let twice = r.one_in(3);
    let (mut one, mut two) = (position(r, n), position(r, n));
    if one > two {
        std::mem::swap(&mut one, &mut two);
    }
    if twice && one != two {
        names[two] = names[one].clone();
    }
    let links: Vec<Link> = names.iter().enumerate().map(|(i, s)| Link::new(&own_cid(i), s, 1)).collect();
    let block = match k % 4 {
        0 => pbo::enc_block(&links, &Msg::of(pbo::DIR)),
        1 => pbo::enc_node(&pbo::Node { links, data: None }),
        _ => {
            // data which is no UnixFS message, of any length
            let len = *r.pick(&[12, 127, 128, 4095, 4096, 5000, 16_384, 65_536, 262_144, 1 << 20, (1 << 21) + 1]);
            let data = loop {
                let mut d = vec![*r.pick(&[0xff, 0x07, 0x00, 0x0f]); len];
                if r.bool() {
                    d = r.bytes(len);
                }
                if pbo::dec_msg(&d) == Err(pbo::Bad::Malformed) {
                    break d;
                }
            };
            pbo::enc_node(&pbo::Node { links, data: Some(data) })
        }
    };
    let want = |needle: &str| {
        let mut at = names.iter().enumerate().filter(|(_, s)| *s == needle).map(|(i, _)| i);
        match (at.next(), at.next()) {
            (None, _) => "not found".to_string(),
            (Some(a), None) => format!("found {}", util::hex(&own_cid(a))),
            (Some(a), Some(b)) => format!("two {} {} {} {}", a, util::hex(&own_cid(a)), b, util::hex(&own_cid(b))),
        }
    };
    let mut asked: Vec<String> = (0..6).map(|_| names[position(r, n)].clone()).collect();
    asked.push(names[one].clone());
    asked.push(long.clone());
    asked.push(long[1..].to_string());
    asked.push("none".into());
    let mut cache = None;
    for a in &asked {
        let got = resolved(unixfs_v1::resolve(&block, a, &mut cache));
        ensure!(
            got == want(a),
            "resolving {:.50} among {} links in a block of {} bytes: {:.300}, expected {:.300}",
            a,
            n,
            block.len(),
            got,
            want(a)
        );
        c.add("names resolved", 1);
    }
    Ok(())
}

/// Two entries of the same name far apart, in the first block of a shard and in a bucket.
fn duplicates(c: &mut Case, r: &mut Rng, k: u64) -> R {
    let n = beyond(r);
    let mut names = many_names(r, n);
    let a = if k % 2 == 0 { r.idx(65_000) } else { r.usize(65_535.min(n - 2), n - 2) };
    let b = r.usize((a + 1).max(65_536).min(n - 1), n - 1);
    names[b] = names[a].clone();
    let mut links: Vec<Link> = names
        .iter()
        .enumerate()
        .map(|(i, s)| Link::new(&own_cid(i), &format!("{:02X}{}", i as u8, s), 1))
        .collect();
    let broken = k >= 3;
    if broken {
        links[b].hash = Some(vec![1, 2, 3]);
    }
    let mut store = Store::default();
    let shard = store.put(pbo::enc_block(&links, &Msg::hamt()), 0);
    let above = store.put(pbo::enc_block(&[Link::new(&shard, "A0", 1)], &Msg::hamt()), 0);
    for root in [&shard, &above] {
        let needle = &names[a];
        let mut cache = None;
        let block = store.get(root).unwrap();
        let said = match unixfs_v1::resolve(block, needle, &mut cache) {
            Ok(MaybeResolved::NeedToLoadMore(l)) => l
                .continue_walk(store.get(&shard).unwrap(), &mut cache)
                .map(|m| resolved(Ok(m))),
            Err(ResolveError::Lookup(e)) => Err(e),
            x => Ok(resolved(x)),
        };
        let text = said.as_ref().err().map(|e| e.to_string()).unwrap_or_default();
        let e = match said {
            Err(LookupError::Multiple(e)) => e,
            Ok(s) => return Err(Fail(format!("two entries {:?} at {} and {}, the lookup gives {}", needle, a, b, s))),
            Err(e) => return Err(Fail(format!("two entries {:?} at {} and {}, the lookup fails with {:?}", needle, a, b, e))),
        };
        let ok = match &e {
            MultipleMatchingLinks::Two { first, second } => {
                !broken
                    && (first.0, first.1.to_bytes()) == (a, own_cid(a))
                    && (second.0, second.1.to_bytes()) == (b, own_cid(b))
            }
            MultipleMatchingLinks::OneValid { first, second } => {
                broken
                    && (first.0, first.1.to_bytes()) == (a, own_cid(a))
                    && second.nth == b
                    && *second.hash == [1, 2, 3]
            }
        };
        ensure!(ok, "two entries {:?} at {} and {} (broken {}): {:?}", needle, a, b, broken, e);
        ensure!(
            text.contains(&a.to_string()) && text.contains(&b.to_string()),
            "two entries at {} and {}: {:?}",
            a,
            b,
            text
        );
        c.add("duplicates reported", 1);
    }
    Ok(())
}

/// A shard with the sizes of very many blocks.
fn refused(c: &mut Case, r: &mut Rng) -> R {
    let n = match r.below(3) {
        0 => *r.pick(&[256, 65_536]),
        _ => beyond(r),
    };
    let mut m = Msg::hamt();
    m.blocksizes = (0..n).map(|_| r.wide()).collect();
    m.filesize = if r.bool() { Some(r.wide()) } else { None };
    let mut store = Store::default();
    let kid = Link::new(&own_cid(1), "A0x", 1);
    let bad = store.put(pbo::enc_block(&[kid], &m), 0);
    let above = store.put(pbo::enc_block(&[Link::new(&bad, "A0", 1)], &Msg::hamt()), 0);
    let is_it = |e: &ShardError| match e {
        ShardError::UnexpectedProperties { filesize, blocksizes } => {
            *filesize == m.filesize && *blocksizes == m.blocksizes
        }
        _ => false,
    };
    let block = store.get(&bad).unwrap();
    match unixfs_v1::resolve(block, "x", &mut None) {
        Err(ResolveError::Lookup(LookupError::Shard(e))) if is_it(&e) => {}
        x => return Err(Fail(format!("a shard with {} block sizes is resolved: {:.200}", n, resolved(x)))),
    }
    match unixfs_v1::resolve(store.get(&above).unwrap(), "x", &mut None) {
        Ok(MaybeResolved::NeedToLoadMore(l)) => match l.continue_walk(block, &mut None) {
            Err(LookupError::Shard(e)) if is_it(&e) => {}
            x => return Err(Fail(format!("a bucket with {} block sizes is read: {:.200}", n, format!("{:?}", x.map(|m| resolved(Ok(m))))))),
        },
        x => return Err(Fail(format!("a shard is not looked into: {:.200}", resolved(x)))),
    }
    let mut w = Walker::new(cid_from(&above), String::new());
    w.next(store.get(&above).unwrap(), &mut None)
        .map_err(|e| Fail(format!("a shard is not walked: {:?}", e)))?;
    match w.next(block, &mut None) {
        Err(walk::Error::UnsupportedHAMTShard(e)) if is_it(&e) => {}
        Ok(_) => return Err(Fail(format!("a bucket with {} block sizes is walked", n))),
        Err(e) => return Err(Fail(format!("a bucket with {} block sizes: {:.200}", n, format!("{:?}", e)))),
    }
    c.add("refused", 3);
    Ok(())
}

fn agreement(c: &mut Case, r: &mut Rng) -> R {
    let mut big = Big::default();
    let n = beyond(r);
    let kids = crowd(r, &mut big, n);
    let tops = [big.dir(r, kids.clone()), big.hashed(r, kids.clone(), 0)];
    for top in tops {
        let mut cache = None;
        let mut listed: HashMap<PathBuf, Vec<u8>> = HashMap::new();
        let mut w = Walker::new(cid_from(big.cid(top)), "r".into());
        while w.should_continue() {
            let cid = w.pending_links().0.to_bytes();
            let block = big.store.get(&cid).expect("announced");
            let item = w.next(block, &mut cache).map_err(|e| Fail(format!("the walk fails: {:?}", e)))?;
            let e = observe(&item, block, &cid)?;
            if e.path.components().count() == 2 && e.kind != Kind::Bucket {
                listed.insert(e.path.clone(), e.cid);
            }
        }
        still_going();
        same!(listed.len(), n, "entries listed");
        let mut cache = None;
        for _ in 0..60 {
            let (name, _) = &kids[position(r, n)];
            let want = listed.get(&PathBuf::from("r").join(name));
            let mut at = unixfs_v1::resolve(big.store.get(big.cid(top)).unwrap(), name, &mut cache)
                .map_err(|e| Fail(format!("resolving {:?} fails: {:?}", name, e)))?;
            let got = loop {
                match at {
                    MaybeResolved::Found(c) => break Some(c.to_bytes()),
                    MaybeResolved::NotFound => break None,
                    MaybeResolved::NeedToLoadMore(l) => {
                        let b = big.store.get(&l.pending_links().0.to_bytes()).expect("announced");
                        at = l
                            .continue_walk(b, &mut cache)
                            .map_err(|e| Fail(format!("looking {:?} up fails: {:?}", name, e)))?;
                    }
                }
            };
            ensure!(
                want.is_some() && got.as_ref() == want,
                "{:?} is listed as {:?} and resolves to {:?}",
                name,
                want.map(|w| util::hex(w)),
                got.map(|w| util::hex(&w))
            );
            c.add("names resolved", 1);
        }
    }
    Ok(())
}

/// A directory of very many imported entries, built, walked and resolved.
fn image(c: &mut Case, r: &mut Rng) -> R {
    use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
    let mut big = Big::default();
    let pool = big.pool(r);
    let n = beyond(r);
    let mut o = TreeOptions::default();
    o.wrap_with_directory();
    o.block_size_limit(None);
    let mut b = BufferingTreeBuilder::new(o);
    let mut names: Vec<(String, usize)> = many_names(r, n).into_iter().map(|s| (s, *r.pick(&pool))).collect();
    for (s, i) in &names {
        for p in [s.clone(), format!("sub/{}", s)] {
            b.put_link(&p, cid_from(big.cid(*i)), 1)
                .map_err(|e| Fail(format!("{:?} is refused: {:?}", p, e)))?;
        }
    }
    names.sort();
    let mut made = HashMap::new();
    for node in b.build() {
        let node = node.map_err(|e| Fail(format!("building fails: {}", e)))?;
        let cid = node.cid.to_bytes();
        big.store.map.insert(cid.clone(), node.block.to_vec());
        made.insert(node.path, cid);
    }
    let mut kids: Vec<(Option<Rc<str>>, usize)> = names.iter().map(|(s, i)| (Some(s.as_str().into()), *i)).collect();
    let get = |p: &str| made.get(p).cloned().ok_or_else(|| Fail(format!("no directory {:?} is built", p)));
    let sub = big.add(Item::Dir {
        cid: get("sub")?,
        meta: Some((None, None)),
        kind: Kind::Dir,
        kids: Rc::new(kids.clone()),
    });
    kids.push((Some("sub".into()), sub));
    kids.sort();
    let top = big.add(Item::Dir {
        cid: get("")?,
        meta: Some((None, None)),
        kind: Kind::Dir,
        kids: Rc::new(kids),
    });
    stream_walk(c, &big, top, "image", &mut None, usize::MAX)?;
    for _ in 0..20 {
        let (s, i) = &names[position(r, n)];
        for d in [top, sub] {
            let got = resolved(unixfs_v1::resolve(big.store.get(big.cid(d)).unwrap(), s, &mut None));
            same!(got, format!("found {}", util::hex(big.cid(*i))), "{:?} in a directory of {}", s, n);
        }
        c.add("names resolved", 2);
    }
    Ok(())
}

/// Small operations with the cache a large one left behind, and the other way round.
fn left_behind(c: &mut Case, r: &mut Rng) -> R {
    let mut big = Big::default();
    let n = beyond(r);
    let wide = shared_file(r, &mut big.store, n, false, true);
    let small = shared_file(r, &mut big.store, 3, true, true);
    let roots = [wide.root().cid.clone(), small.root().cid.clone()];
    let mut cache = Some(Cache::default());
    for i in 0..6 {
        let f = if i % 2 == 0 { &wide } else { &small };
        let most = if r.bool() { usize::MAX } else { r.usize(1, 400) };
        let range = if r.bool() {
            let a = r.below(f.root().total);
            Some(a..r.range(a, f.root().total))
        } else {
            None
        };
        let e = stream_visit(c, &big.store, &roots[i % 2], f, range, &mut cache, most)?;
        no_error("the visit", e)?;
    }
    let kids = crowd(r, &mut big, n);
    let d = big.dir(r, kids.clone());
    let few = big.dir(r, kids[..4].to_vec());
    let h = big.hashed(r, kids[..2000].to_vec(), 0);
    let f = big.file(small);
    let mut found = drive::dir_cache(VecDeque::new());
    for top in [d, few, f, h, d, few] {
        stream_walk(c, &big, top, "x", &mut cache, if r.bool() { usize::MAX } else { 700 })?;
        if top == h {
            for i in [0, 1999, 77] {
                stream_lookup(c, r, &big, h, &kids[i].0, &mut found)?;
            }
        }
    }
    Ok(())
}

// ---- broken links ------------------------------------------------------------------------------

fn broken_link(c: &mut Case, r: &mut Rng, k: u64) -> R {
    let n = if k == 0 { r.usize(258, 300) } else { beyond(r) };
    let at = position(r, n);
    let hash = r.pick(&[vec![], vec![1u8], vec![0x02, 0x70, 0x12, 0x20, 1], vec![7; 70_000]]).clone();
    let name = |i: usize| match k % 6 {
        0 | 1 => String::new(),
        2 | 3 => format!("n{}", i),
        _ => format!("{:02X}n{}", i as u8, i),
    };
    let one = util::cid_of(b"one");
    let mut links: Vec<Link> = (0..n).map(|i| Link::new(&one, &name(i), 1)).collect();
    let mut bucket = false;
    if k % 6 == 5 {
        // a bucket
        bucket = true;
        links[at].name = Some("A0".into());
    }
    links[at].hash = Some(hash.clone());
    let m = match k % 6 {
        0 | 1 => {
            let mut m = Msg::of(pbo::FILE);
            m.filesize = Some(n as u64);
            m.blocksizes = vec![1; n];
            m
        }
        2 | 3 => Msg::of(pbo::DIR),
        _ => Msg::hamt(),
    };
    let shown = links[at].name.clone().unwrap_or_default();
    let block = pbo::enc_block(&links, &m);
    let root = util::cid_of(&block);
    let tell = |what: &str, bad: Option<drive::BadLink>, text: String| -> R {
        match bad {
            Some(b) if b.nth == at && b.name == shown && b.hash == hash => {}
            Some(b) => {
                return Err(Fail(format!(
                    "{}: link {} of {} is broken ({:?}), reported is {} {:?} with {} bytes of hash",
                    what,
                    at,
                    n,
                    shown,
                    b.nth,
                    b.name,
                    b.hash.len()
                )))
            }
            None => return Err(Fail(format!("{}: link {} of {} is broken, but {:.200}", what, at, n, text))),
        }
        ensure!(text.contains(&at.to_string()), "{}: link {} of {} is broken: {:.200}", what, at, n, text);
        Ok(())
    };
    let mut w = Walker::new(cid_from(&root), String::new());
    match w.next(&block, &mut None) {
        Ok(_) => return Err(Fail(format!("link {} of {} is broken, the walk goes on", at, n))),
        Err(e) => tell("walk", drive::bad_in_walk(&e), e.to_string())?,
    }
    match k % 6 {
        0 | 1 => {
            match IdleFileVisit::default().start(&block) {
                Ok(_) => return Err(Fail(format!("link {} of {} is broken, the visit goes on", at, n))),
                Err(e) => tell("visit", drive::bad_in_visit(&e), e.to_string())?,
            }
            // not needed outside of the range
            if at > 10 {
                let r = IdleFileVisit::default().with_target_range(0..at as u64 - 2).start(&block).map(|_| ());
                ensure!(r.is_ok(), "link {} is not needed, but {:?}", at, r);
            }
            if at + 10 < n {
                let r = IdleFileVisit::default().with_target_range(at as u64 + 3..n as u64).start(&block).map(|_| ());
                ensure!(r.is_ok(), "link {} is not needed, but {:?}", at, r);
            }
        }
        _ => {
            let needle = format!("n{}", at);
            match unixfs_v1::resolve(&block, &needle, &mut None) {
                Ok(_) => return Err(Fail(format!("link {} of {} is broken, {:?} resolves", at, n, needle))),
                Err(e) => tell("resolve", drive::bad_in_resolve(&e), e.to_string())?,
            }
            let other = format!("n{}", if at == 0 { 1 } else { at - 1 });
            let got = resolved(unixfs_v1::resolve(&block, &other, &mut None));
            // an entry of the same block is found before any bucket
            ensure!(
                got == format!("found {}", util::hex(&one)) || bucket,
                "link {} of {} is broken, {:?} resolves to {:.200}",
                at,
                n,
                other,
                got
            );
        }
    }
    c.add("broken links reported", 1);
    Ok(())
}

// ---- work --------------------------------------------------------------------------------------

/// Hundreds of thousands of links in a block: what grows with their square does not come to an end.
fn bulk(c: &mut Case, r: &mut Rng, k: u64) -> R {
    let mut big = Big::default();
    let n = 600_000;
    match k {
        0 => {
            let f = shared_file(r, &mut big.store, n, true, true);
            let root = f.root().cid.clone();
            let steps = 40_000;
            let e = stream_visit(c, &big.store, &root, &f, None, &mut Some(Cache::default()), steps)?;
            no_error("the visit", e)?;
        }
        1 => {
            let f = shared_file(r, &mut big.store, n, false, true);
            let f = big.file(f);
            stream_walk(c, &big, f, "f", &mut None, 40_000)?;
        }
        2 => {
            let kids = crowd(r, &mut big, n);
            let d = big.dir(r, kids);
            stream_walk(c, &big, d, "d", &mut Some(Cache::default()), 40_000)?;
            for s in ["none", "7"] {
                let _ = resolved(unixfs_v1::resolve(big.store.get(big.cid(d)).unwrap(), s, &mut None));
            }
        }
        3 => {
            let kids = crowd(r, &mut big, n);
            let top = big.shard(r, kids.into_iter().enumerate().map(|(i, (n, k))| (i as u8, Some(n), k)).collect(), true);
            stream_walk(c, &big, top, "d", &mut None, 40_000)?;
            stream_lookup(c, r, &big, top, "none", &mut None)?;
        }
        4 => {
            let pool = big.pool(r);
            let some: Vec<usize> = (0..4u8)
                .map(|i| big.shard(r, vec![(i, Some(format!("in{}", i)), pool[i as usize])], false))
                .collect();
            let kids: Vec<(u8, Option<String>, usize)> = (0..n / 4).map(|i| (i as u8, None, some[r.idx(4)])).collect();
            let top = big.shard(r, kids, true);
            stream_lookup(c, r, &big, top, "none", &mut None)?;
            stream_walk(c, &big, top, "d", &mut None, 40_000)?;
        }
        _ => {
            let mut m = Msg::of(pbo::FILE);
            m.blocksizes = (0..n).map(|_| r.wide()).collect();
            let links: Vec<Link> = (0..n).map(|i| Link::new(&[1, 2], "x", i as u64)).collect();
            let block = pbo::enc_block(&links, &m);
            let f = FlatUnixFs::try_parse(&block).map_err(|e| Fail(format!("a large block does not parse: {:?}", e)))?;
            ensure!(
                f.links.len() == n && f.data.blocksizes == m.blocksizes,
                "{} links and {} sizes are read as {} and {}",
                n,
                n,
                f.links.len(),
                f.data.blocksizes.len()
            );
            let _ = unixfs_v1::dagpb::node_data(&block);
            let _ = IdleFileVisit::default().start(&block).map(|_| ());
        }
    }
    c.max("most links in a block", n as u64);
    Ok(())
}
