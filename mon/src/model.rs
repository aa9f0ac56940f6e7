//! Reference models: what a file, a tree, a shard or an import *is*, written without looking at how
//! the crate does it, together with the event sequences that observing them has to give.

use crate::pbo::{self, Link, Msg};
use crate::util::{cid_of, cid_styled, Rng};
use std::collections::HashMap;
use std::path::PathBuf;

#[derive(Default, Clone)]
pub struct Store {
    pub map: HashMap<Vec<u8>, Vec<u8>>,
    /// Given for every identifier which is not in here.
    pub otherwise: Option<Vec<u8>>,
}

impl Store {
    pub fn put(&mut self, block: Vec<u8>, style: u8) -> Vec<u8> {
        let cid = cid_styled(&block, style);
        self.map.insert(cid.clone(), block);
        cid
    }
    pub fn get(&self, cid: &[u8]) -> Option<&[u8]> {
        self.map.get(cid).or(self.otherwise.as_ref()).map(|v| v.as_slice())
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Meta {
    pub mode: Option<u32>,
    pub mtime: Option<(i64, Option<u32>)>,
}

/// As the crate reports it: missing nanoseconds are zero.
pub type MetaSeen = (Option<u32>, Option<(i64, u32)>);

impl Meta {
    pub fn seen(&self) -> MetaSeen {
        (
            self.mode,
            self.mtime.map(|(s, n)| (s, n.unwrap_or(0))),
        )
    }
    pub fn into_msg(&self, m: &mut Msg) {
        m.mode = self.mode;
        m.mtime = self.mtime;
    }
    pub fn random(rng: &mut Rng) -> Meta {
        let mut m = Meta::default();
        if rng.bool() {
            m.mode = Some(*rng.pick(&[
                0,
                0o644,
                0o755,
                0o100644,
                0o7777,
                u32::MAX,
                1,
                1 << 31,
                0x3fff,
            ]));
            if rng.bool() {
                m.mode = Some(rng.wide() as u32);
            }
        }
        if rng.bool() {
            let secs = match rng.below(4) {
                0 => *rng.pick(&[0, 1, -1, i64::MIN, i64::MAX, 1_600_000_000, -2_208_988_800]),
                1 => -(rng.wide() as i64 & i64::MAX),
                _ => rng.wide() as i64,
            };
            let nanos = match rng.below(4) {
                0 => None,
                1 => Some(*rng.pick(&[0, 1, 999_999_999, 1_000_000_000, u32::MAX, 1 << 31])),
                _ => Some(rng.wide() as u32),
            };
            m.mtime = Some((secs, nanos));
        }
        m
    }
    /// Nothing in most cases.
    pub fn sparse(rng: &mut Rng) -> Meta {
        if rng.one_in(3) {
            Meta::random(rng)
        } else {
            Meta::default()
        }
    }
}

// ---- files -------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum FNode {
    Leaf {
        bytes: Vec<u8>,
        raw: bool,
        /// Record the size in the leaf.
        sized: bool,
        /// With no bytes: write the data field anyway.
        empty_field: bool,
    },
    Inner {
        kids: Vec<FNode>,
        raw: bool,
    },
}

impl FNode {
    pub fn len(&self) -> u64 {
        match self {
            FNode::Leaf { bytes, .. } => bytes.len() as u64,
            FNode::Inner { kids, .. } => kids.iter().map(|k| k.len()).sum(),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            FNode::Leaf { .. } => 1,
            FNode::Inner { kids, .. } => 1 + kids.iter().map(|k| k.count()).sum::<usize>(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            FNode::Leaf { .. } => 1,
            FNode::Inner { kids, .. } => 1 + kids.iter().map(|k| k.depth()).max().unwrap_or(0),
        }
    }
}

#[derive(Clone, Debug)]
pub struct FBlock {
    pub cid: Vec<u8>,
    pub start: u64,
    pub end: u64,
    /// Content, empty for link nodes.
    pub bytes: Vec<u8>,
    pub is_leaf: bool,
    /// Positions of the children in the pre-order list.
    pub kids: Vec<usize>,
    pub parent: Option<usize>,
    pub links: Vec<Link>,
    pub msg: Msg,
}

/// A file laid out in blocks, in pre-order.
#[derive(Clone, Debug)]
pub struct FileModel {
    pub blocks: Vec<FBlock>,
    pub content: Vec<u8>,
    pub meta: Meta,
    pub tsize: u64,
}

impl FileModel {
    pub fn root(&self) -> &[u8] {
        &self.blocks[0].cid
    }
    pub fn total(&self) -> u64 {
        self.content.len() as u64
    }
}

/// How blocks are written down.
pub struct Ink {
    /// Not the canonical encoding, but an equivalent one.
    pub odd: bool,
    /// Identifier style, see `cid_styled`.
    pub style: u8,
}

impl Ink {
    pub fn plain() -> Ink {
        Ink {
            odd: false,
            style: 0,
        }
    }
    pub fn random(rng: &mut Rng) -> Ink {
        Ink {
            odd: rng.one_in(4),
            style: match rng.below(8) {
                0 | 1 => 1,
                2 => rng.range(3, crate::util::STYLES - 1) as u8,
                _ => 0,
            },
        }
    }
    pub fn block(&self, rng: &mut Rng, links: &[Link], m: &Msg) -> Vec<u8> {
        if self.odd {
            pbo::enc_block_odd(rng, links, m)
        } else {
            pbo::enc_block(links, m)
        }
    }
}

/// Called for every node, children first, with its position in pre-order: may change what is going to
/// be written, or give the bytes to write instead.
pub type Hook<'h> = &'h mut dyn FnMut(usize, &mut Vec<Link>, &mut Msg) -> Option<Vec<u8>>;

pub fn lay_file(rng: &mut Rng, ink: &Ink, store: &mut Store, dag: &FNode, meta: &Meta) -> FileModel {
    lay_file_with(rng, ink, store, dag, meta, &mut |_, _, _| None)
}

pub fn lay_file_with(
    rng: &mut Rng,
    ink: &Ink,
    store: &mut Store,
    dag: &FNode,
    meta: &Meta,
    hook: Hook<'_>,
) -> FileModel {
    let mut blocks = Vec::new();
    let mut content = Vec::new();
    let (_, tsize) = lay_node(rng, ink, store, dag, Some(meta), 0, None, &mut blocks, &mut content, hook);
    FileModel {
        blocks,
        content,
        meta: meta.clone(),
        tsize,
    }
}

#[allow(clippy::too_many_arguments)]
fn lay_node(
    rng: &mut Rng,
    ink: &Ink,
    store: &mut Store,
    n: &FNode,
    meta: Option<&Meta>,
    start: u64,
    parent: Option<usize>,
    blocks: &mut Vec<FBlock>,
    content: &mut Vec<u8>,
    hook: Hook<'_>,
) -> (Vec<u8>, u64) {
    let at = blocks.len();
    let mut msg = Msg::default();
    let mut links = Vec::new();
    let mut kid_at = Vec::new();
    let mut tsize = 0;
    let mut own = Vec::new();
    let is_leaf = matches!(n, FNode::Leaf { .. });
    blocks.push(FBlock {
        cid: Vec::new(),
        start,
        end: start + n.len(),
        bytes: Vec::new(),
        is_leaf,
        kids: Vec::new(),
        parent,
        links: Vec::new(),
        msg: Msg::default(),
    });
    match n {
        FNode::Leaf {
            bytes,
            raw,
            sized,
            empty_field,
        } => {
            msg.ty = Some(if *raw { pbo::RAW } else { pbo::FILE });
            if !bytes.is_empty() || *empty_field {
                msg.data = Some(bytes.clone());
            }
            if *sized {
                msg.filesize = Some(bytes.len() as u64);
            }
            content.extend_from_slice(bytes);
            own = bytes.clone();
        }
        FNode::Inner { kids, raw } => {
            msg.ty = Some(if *raw { pbo::RAW } else { pbo::FILE });
            msg.filesize = Some(n.len());
            let mut off = start;
            for k in kids {
                kid_at.push(blocks.len());
                let (cid, ts) = lay_node(rng, ink, store, k, None, off, Some(at), blocks, content, hook);
                off += k.len();
                msg.blocksizes.push(k.len());
                tsize += ts;
                let mut l = Link::new(&cid, "", ts);
                if ink.odd {
                    if rng.one_in(3) {
                        l.name = None;
                    }
                    if rng.one_in(3) {
                        l.tsize = None;
                    }
                }
                links.push(l);
            }
        }
    }
    if let Some(m) = meta {
        m.into_msg(&mut msg);
    }
    let block = match hook(at, &mut links, &mut msg) {
        Some(block) => block,
        None => ink.block(rng, &links, &msg),
    };
    tsize += block.len() as u64;
    let cid = store.put(block, ink.style);
    let b = &mut blocks[at];
    b.cid = cid.clone();
    b.bytes = own;
    b.kids = kid_at;
    b.links = links;
    b.msg = msg;
    (cid, tsize)
}

// ---- sparse files: few blocks, shared so often that the file is huge ----------------------------

pub struct SparseNode {
    pub cid: Vec<u8>,
    pub total: u64,
    pub bytes: Vec<u8>,
    pub kids: Vec<usize>,
}

pub struct Sparse {
    /// The last one is the root.
    pub nodes: Vec<SparseNode>,
    pub meta: Meta,
}

impl Sparse {
    pub fn random(rng: &mut Rng, ink: &Ink, store: &mut Store) -> Sparse {
        let mut out = Sparse {
            nodes: Vec::new(),
            meta: Meta::sparse(rng),
        };
        // none of them empty: a subtree of nothing could be repeated without end
        let leaves = rng.usize(1, 4);
        let full = rng.one_in(4);
        for i in 0..leaves {
            let n = if full && i == 0 { 1 } else { rng.usize(1, 9) };
            let bytes = rng.bytes(n);
            out.push(rng, ink, store, bytes, Vec::new(), false);
        }
        if full {
            // doubled 63 times and added up: as long as a file can be
            let mut all = vec![0];
            for _ in 0..63 {
                let prev = *all.last().unwrap();
                out.push(rng, ink, store, Vec::new(), vec![prev, prev], false);
                all.push(out.nodes.len() - 1);
            }
            match rng.below(3) {
                0 => all.reverse(),
                1 => rng.shuffle(&mut all),
                _ => {}
            }
            if rng.one_in(3) {
                // not quite
                all.pop();
            }
            out.push(rng, ink, store, Vec::new(), all, true);
            return out;
        }
        let want = rng.range(20, 63);
        loop {
            let n = rng.usize(1, 5);
            let mut kids = vec![out.nodes.len() - 1];
            for _ in 0..n {
                let back = if rng.bool() { 2 } else { out.nodes.len() };
                kids.push(out.nodes.len() - 1 - rng.idx(back.min(out.nodes.len())));
            }
            rng.shuffle(&mut kids);
            let sum = kids.iter().try_fold(0u64, |a, k| a.checked_add(out.nodes[*k].total));
            let root = match sum {
                Some(s) => s >> want > 0,
                None => {
                    kids = vec![out.nodes.len() - 1];
                    true
                }
            };
            out.push(rng, ink, store, Vec::new(), kids, root);
            if root {
                return out;
            }
        }
    }

    pub fn push(&mut self, rng: &mut Rng, ink: &Ink, store: &mut Store, bytes: Vec<u8>, kids: Vec<usize>, root: bool) {
        let total = kids.iter().map(|k| self.nodes[*k].total).sum::<u64>() + bytes.len() as u64;
        let mut m = Msg::of(if rng.one_in(6) { pbo::RAW } else { pbo::FILE });
        if kids.is_empty() {
            m.data = Some(bytes.clone());
        }
        if !kids.is_empty() || rng.bool() {
            m.filesize = Some(total);
        }
        m.blocksizes = kids.iter().map(|k| self.nodes[*k].total).collect();
        if root {
            self.meta.into_msg(&mut m);
        }
        let links: Vec<Link> = kids.iter().map(|k| Link::new(&self.nodes[*k].cid, "", rng.wide())).collect();
        let cid = store.put(ink.block(rng, &links, &m), ink.style);
        self.nodes.push(SparseNode {
            cid,
            total,
            bytes,
            kids,
        });
    }

    pub fn root(&self) -> &SparseNode {
        self.nodes.last().unwrap()
    }

    /// The blocks that touch the range in depth-first order, with the content of the range.
    pub fn part(&self, r: &std::ops::Range<u64>) -> (Vec<Vec<u8>>, Vec<u8>) {
        let (mut blocks, mut bytes) = (Vec::new(), Vec::new());
        let mut todo = vec![(self.nodes.len() - 1, 0u64)];
        while let Some((n, start)) = todo.pop() {
            let x = &self.nodes[n];
            let end = start + x.total;
            if n + 1 != self.nodes.len() && start.max(r.start) > end.min(r.end) {
                continue;
            }
            blocks.push(x.cid.clone());
            let (a, b) = (start.max(r.start), end.min(r.end));
            if !x.bytes.is_empty() && a < b {
                bytes.extend_from_slice(&x.bytes[(a - start) as usize..(b - start) as usize]);
            }
            let mut off = end;
            for k in x.kids.iter().rev() {
                off -= self.nodes[*k].total;
                todo.push((*k, off));
            }
        }
        (blocks, bytes)
    }

    /// The first blocks and what they hold, in depth-first order.
    pub fn begin(&self, n: usize) -> Vec<(&[u8], &[u8])> {
        let mut out = Vec::new();
        let mut todo = vec![self.nodes.len() - 1];
        while let (Some(i), true) = (todo.pop(), out.len() < n) {
            let x = &self.nodes[i];
            out.push((x.cid.as_slice(), x.bytes.as_slice()));
            todo.extend(x.kids.iter().rev());
        }
        out
    }
}

// ---- file shapes -------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Leaves {
    /// Every byte of the content is different from its neighbours', leaves are mostly distinct.
    Counting,
    /// Few distinct leaves, many repeats.
    Repeating,
    Random,
}

pub struct Shape {
    pub leaves: Leaves,
    pub max_leaf: usize,
    pub zero_leaves: bool,
    pub unsized_leaves: bool,
    pub ctr: u64,
}

impl Shape {
    pub fn random(rng: &mut Rng) -> Shape {
        Shape {
            leaves: *rng.pick(&[Leaves::Counting, Leaves::Repeating, Leaves::Random]),
            max_leaf: *rng.pick(&[1, 2, 3, 7, 16, 64]),
            zero_leaves: rng.one_in(4),
            unsized_leaves: rng.one_in(3),
            ctr: rng.next() & 0xff,
        }
    }

    pub fn leaf(&mut self, rng: &mut Rng) -> FNode {
        let n = if self.zero_leaves && rng.one_in(4) {
            0
        } else {
            rng.usize(1, self.max_leaf)
        };
        self.leaf_of(rng, n)
    }

    pub fn leaf_of(&mut self, rng: &mut Rng, n: usize) -> FNode {
        let bytes = match self.leaves {
            Leaves::Counting => (0..n)
                .map(|_| {
                    self.ctr += 1;
                    self.ctr as u8
                })
                .collect(),
            Leaves::Repeating => vec![rng.below(2) as u8; n],
            Leaves::Random => rng.bytes(n),
        };
        FNode::Leaf {
            bytes,
            raw: rng.one_in(3),
            sized: !(self.unsized_leaves && rng.bool()),
            empty_field: rng.bool(),
        }
    }
}

pub fn balanced(rng: &mut Rng, s: &mut Shape, leaves: usize, k: usize) -> FNode {
    let mut level: Vec<FNode> = (0..leaves.max(1)).map(|_| s.leaf(rng)).collect();
    while level.len() > 1 {
        let mut next = Vec::new();
        let mut it = level.into_iter().peekable();
        while it.peek().is_some() {
            let kids: Vec<FNode> = it.by_ref().take(k).collect();
            next.push(FNode::Inner { kids, raw: false });
        }
        level = next;
    }
    level.pop().unwrap()
}

/// Trickle layout: some leaves directly, then subtrees of growing depth.
pub fn trickle(rng: &mut Rng, s: &mut Shape, depth: usize, direct: usize, reps: usize) -> FNode {
    let mut kids: Vec<FNode> = (0..direct).map(|_| s.leaf(rng)).collect();
    for d in 1..depth {
        for _ in 0..reps {
            kids.push(trickle(rng, s, d, direct, reps));
        }
    }
    FNode::Inner { kids, raw: false }
}

pub fn lopsided(rng: &mut Rng, s: &mut Shape, depth: usize) -> FNode {
    let mut n = s.leaf(rng);
    for _ in 0..depth {
        let mut kids = vec![n];
        let pos = rng.below(3);
        for _ in 0..rng.below(3) {
            let l = s.leaf(rng);
            if pos == 0 {
                kids.insert(0, l)
            } else if pos == 1 {
                kids.push(l)
            } else {
                let i = rng.idx(kids.len() + 1);
                kids.insert(i, l)
            }
        }
        n = FNode::Inner {
            kids,
            raw: rng.one_in(8),
        };
    }
    n
}

pub fn wild(rng: &mut Rng, s: &mut Shape, depth: usize, budget: &mut usize) -> FNode {
    if depth == 0 || *budget == 0 || rng.one_in(4) {
        *budget = budget.saturating_sub(1);
        return s.leaf(rng);
    }
    let n = rng.usize(1, 5);
    let kids = (0..n).map(|_| wild(rng, s, depth - 1, budget)).collect();
    FNode::Inner {
        kids,
        raw: rng.one_in(6),
    }
}

pub fn random_dag(rng: &mut Rng, big: bool) -> FNode {
    let mut s = Shape::random(rng);
    random_dag_with(rng, &mut s, big)
}

pub fn random_dag_with(rng: &mut Rng, s: &mut Shape, big: bool) -> FNode {
    let f = if big { 6 } else { 1 };
    match rng.below(8) {
        0 => {
            if rng.one_in(4) {
                s.leaf_of(rng, 0)
            } else {
                s.leaf(rng)
            }
        }
        1 | 2 => {
            let n = rng.usize(1, 24 * f);
            let k = rng.usize(2, 6);
            balanced(rng, s, n, k)
        }
        3 => {
            let d = rng.usize(1, if big { 4 } else { 3 });
            let direct = rng.usize(1, 4);
            let reps = rng.usize(1, 2);
            trickle(rng, s, d, direct, reps)
        }
        4 => {
            let d = rng.usize(1, 12 * f);
            lopsided(rng, s, d)
        }
        5 => {
            // one wide node
            let n = rng.usize(2, 40 * f);
            FNode::Inner {
                kids: (0..n).map(|_| s.leaf(rng)).collect(),
                raw: rng.one_in(4),
            }
        }
        _ => {
            let mut b = 20 * f;
            let d = rng.usize(1, 5);
            let mut n = wild(rng, s, d, &mut b);
            if let FNode::Leaf { .. } = n {
                n = FNode::Inner {
                    kids: vec![n, s.leaf(rng)],
                    raw: false,
                };
            }
            n
        }
    }
}

// ---- the importer's layout ---------------------------------------------------------------------

/// The balanced layout of the given content: every block of it, root last within its own subtree, and
/// the root identifier.
pub struct Balanced {
    pub blocks: Vec<Vec<u8>>,
    pub root: Vec<u8>,
    pub tsize: u64,
    pub depth: usize,
}

/// A finished subtree of a balanced layout.
pub struct Nd {
    pub cid: Vec<u8>,
    pub size: u64,
    pub tsize: u64,
}

pub fn balanced_leaf(content: &[u8]) -> (Nd, Vec<u8>) {
    let m = Msg {
        ty: Some(pbo::FILE),
        data: if content.is_empty() { None } else { Some(content.to_vec()) },
        filesize: Some(content.len() as u64),
        ..Default::default()
    };
    let b = pbo::enc_block(&[], &m);
    let n = Nd {
        cid: cid_of(&b),
        size: content.len() as u64,
        tsize: b.len() as u64,
    };
    (n, b)
}

/// Adds the link blocks above the leaves; the root, with the depth of the tree.
pub fn balanced_above(mut level: Vec<Nd>, k: usize, blocks: &mut Vec<Vec<u8>>) -> (Nd, usize) {
    let mut depth = 1;
    while level.len() > 1 {
        depth += 1;
        let mut next = Vec::new();
        for group in level.chunks(k) {
            let links: Vec<Link> = group.iter().map(|n| Link::new(&n.cid, "", n.tsize)).collect();
            let m = Msg {
                ty: Some(pbo::FILE),
                filesize: Some(group.iter().map(|n| n.size).sum()),
                blocksizes: group.iter().map(|n| n.size).collect(),
                ..Default::default()
            };
            let b = pbo::enc_block(&links, &m);
            next.push(Nd {
                cid: cid_of(&b),
                size: m.filesize.unwrap(),
                tsize: b.len() as u64 + group.iter().map(|n| n.tsize).sum::<u64>(),
            });
            blocks.push(b);
        }
        level = next;
    }
    (level.pop().unwrap(), depth)
}

pub fn balanced_layout(content: &[u8], chunk: usize, k: usize) -> Balanced {
    let mut blocks = Vec::new();
    let mut level: Vec<Nd> = Vec::new();
    let chunks: Vec<&[u8]> = if content.is_empty() {
        vec![&[]]
    } else {
        content.chunks(chunk).collect()
    };
    for c in chunks {
        let (n, b) = balanced_leaf(c);
        level.push(n);
        blocks.push(b);
    }
    let (root, depth) = balanced_above(level, k, &mut blocks);
    Balanced {
        root: root.cid,
        tsize: root.tsize,
        blocks,
        depth,
    }
}

// ---- trees -------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Tree {
    Dir {
        meta: Meta,
        kids: Vec<(String, Tree)>,
    },
    Hamt {
        meta: Meta,
        root: Shard,
    },
    File {
        meta: Meta,
        dag: FNode,
    },
    Symlink {
        meta: Meta,
        target: Vec<u8>,
    },
}

#[derive(Clone, Debug, Default)]
pub struct Shard {
    pub slots: Vec<(String, Slot)>,
    pub bitfield: Option<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub enum Slot {
    Entry(String, Tree),
    Bucket(Shard),
}

impl Tree {
    pub fn is_dir(&self) -> bool {
        matches!(self, Tree::Dir { .. } | Tree::Hamt { .. })
    }
}

impl Shard {
    pub fn entries<'a>(&'a self, out: &mut Vec<(&'a str, &'a Tree)>) {
        for (_, s) in &self.slots {
            match s {
                Slot::Entry(n, t) => out.push((n, t)),
                Slot::Bucket(b) => b.entries(out),
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Root,
    Dir,
    Bucket,
    File,
    Symlink,
}

/// One step of a walk, as expected or as observed.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev {
    pub kind: Kind,
    /// The block that was supplied.
    pub block: Vec<u8>,
    /// The identifier that is reported.
    pub cid: Vec<u8>,
    pub path: PathBuf,
    /// `None` for buckets, which report none.
    pub meta: Option<MetaSeen>,
    /// Content or symlink target.
    pub bytes: Vec<u8>,
    pub first: bool,
    pub last: bool,
    pub total: u64,
}

impl Ev {
    pub fn bare(kind: Kind, cid: &[u8], path: &PathBuf) -> Ev {
        Ev {
            kind,
            block: cid.to_vec(),
            cid: cid.to_vec(),
            path: path.clone(),
            meta: None,
            bytes: Vec::new(),
            first: false,
            last: false,
            total: 0,
        }
    }
    pub fn brief(&self) -> String {
        format!(
            "{:?} {} path={:?} meta={:?} bytes={} first={} last={} total={} (for block {})",
            self.kind,
            tail(&self.cid),
            self.path,
            self.meta,
            crate::util::hexs(&self.bytes),
            self.first,
            self.last,
            self.total,
            tail(&self.block),
        )
    }
}

pub fn tail(cid: &[u8]) -> String {
    let h = crate::util::hex(cid);
    if h.len() > 12 {
        format!("..{}", &h[h.len() - 10..])
    } else {
        h
    }
}

/// A tree in blocks: the events a walk over it has to give, in order.
pub struct Laid {
    pub cid: Vec<u8>,
    pub tsize: u64,
    pub events: Vec<Ev>,
}

/// `path` is the path of this node. `at_root` tells the root of the walk from what is below.
pub fn lay_tree(
    rng: &mut Rng,
    ink: &Ink,
    store: &mut Store,
    t: &Tree,
    path: &PathBuf,
    at_root: bool,
) -> Laid {
    match t {
        Tree::File { meta, dag } => {
            let f = lay_file(rng, ink, store, dag, meta);
            let n = f.blocks.len();
            let events = f
                .blocks
                .iter()
                .enumerate()
                .map(|(i, b)| Ev {
                    kind: Kind::File,
                    block: b.cid.clone(),
                    cid: f.root().to_vec(),
                    path: path.clone(),
                    meta: Some(meta.seen()),
                    bytes: b.bytes.clone(),
                    first: i == 0,
                    last: i + 1 == n,
                    total: f.total(),
                })
                .collect();
            Laid {
                cid: f.root().to_vec(),
                tsize: f.tsize,
                events,
            }
        }
        Tree::Symlink { meta, target } => {
            let mut m = Msg::of(pbo::SYMLINK);
            if !target.is_empty() || rng.bool() {
                m.data = Some(target.clone());
            }
            if rng.one_in(6) {
                m.filesize = Some(target.len() as u64);
            }
            meta.into_msg(&mut m);
            let block = ink.block(rng, &[], &m);
            let tsize = block.len() as u64;
            let cid = store.put(block, ink.style);
            let mut e = Ev::bare(Kind::Symlink, &cid, path);
            e.meta = Some(meta.seen());
            e.bytes = target.clone();
            Laid {
                cid,
                tsize,
                events: vec![e],
            }
        }
        Tree::Dir { meta, kids } => {
            let mut m = Msg::of(pbo::DIR);
            meta.into_msg(&mut m);
            if rng.one_in(8) {
                // content of no length is no content
                m.data = Some(Vec::new());
            }
            let mut links = Vec::new();
            let mut below = Vec::new();
            let mut tsize = 0;
            for (name, k) in kids {
                let l = lay_tree(rng, ink, store, k, &path.join(name), false);
                links.push(Link::new(&l.cid, name, l.tsize));
                tsize += l.tsize;
                below.extend(l.events);
            }
            let block = ink.block(rng, &links, &m);
            tsize += block.len() as u64;
            let cid = store.put(block, ink.style);
            let mut e = Ev::bare(if at_root { Kind::Root } else { Kind::Dir }, &cid, path);
            e.meta = Some(meta.seen());
            let mut events = vec![e];
            events.extend(below);
            Laid { cid, tsize, events }
        }
        Tree::Hamt { meta, root } => {
            let mut l = lay_shard(rng, ink, store, root, Some(meta), path);
            l.events[0].kind = Kind::Root;
            l.events[0].meta = Some(meta.seen());
            l
        }
    }
}

fn lay_shard(
    rng: &mut Rng,
    ink: &Ink,
    store: &mut Store,
    s: &Shard,
    meta: Option<&Meta>,
    path: &PathBuf,
) -> Laid {
    let mut m = Msg::hamt();
    m.data = s.bitfield.clone();
    if let Some(meta) = meta {
        meta.into_msg(&mut m);
    }
    let mut links = Vec::new();
    let mut below = Vec::new();
    let mut tsize = 0;
    for (prefix, slot) in &s.slots {
        let (l, name) = match slot {
            Slot::Entry(n, t) => (
                lay_tree(rng, ink, store, t, &path.join(n), false),
                format!("{}{}", prefix, n),
            ),
            Slot::Bucket(b) => (lay_shard(rng, ink, store, b, None, path), prefix.clone()),
        };
        links.push(Link::new(&l.cid, &name, l.tsize));
        tsize += l.tsize;
        below.extend(l.events);
    }
    let block = ink.block(rng, &links, &m);
    tsize += block.len() as u64;
    let cid = store.put(block, ink.style);
    let mut events = vec![Ev::bare(Kind::Bucket, &cid, path)];
    events.extend(below);
    Laid { cid, tsize, events }
}

// ---- tree generators ---------------------------------------------------------------------------

pub struct TreeGen {
    pub budget: usize,
    pub hamt: bool,
    pub files_big: bool,
    /// Probability weights: file, symlink, dir, hamt.
    pub weights: [u64; 4],
    pub max_kids: usize,
    /// Clone an earlier sibling once in a while, so that identifiers repeat.
    pub share: bool,
}

impl TreeGen {
    pub fn random(rng: &mut Rng) -> TreeGen {
        TreeGen {
            budget: *rng.pick(&[4, 10, 20, 40]),
            hamt: true,
            files_big: false,
            weights: *rng.pick(&[[4, 2, 3, 3], [1, 1, 5, 1], [1, 1, 1, 5], [5, 0, 1, 1], [1, 4, 2, 2]]),
            max_kids: *rng.pick(&[2, 3, 5, 9]),
            share: rng.one_in(4),
        }
    }

    pub fn tree(&mut self, rng: &mut Rng, depth: usize) -> Tree {
        self.budget = self.budget.saturating_sub(1);
        let mut w = self.weights;
        if depth == 0 || self.budget == 0 {
            w[2] = w[2].min(1);
            w[3] = w[3].min(1);
            w[0] += 2;
        }
        if !self.hamt {
            w[3] = 0;
        }
        let mut x = rng.below(w.iter().sum());
        let mut which = 0;
        while x >= w[which] {
            x -= w[which];
            which += 1;
        }
        match which {
            0 => {
                let dag = if rng.one_in(2) {
                    Shape::random(rng).leaf(rng)
                } else {
                    random_dag(rng, self.files_big)
                };
                Tree::File {
                    meta: Meta::sparse(rng),
                    dag,
                }
            }
            1 => Tree::Symlink {
                meta: Meta::sparse(rng),
                target: target(rng),
            },
            2 => self.dir(rng, depth),
            _ => self.hamt(rng, depth),
        }
    }

    /// Something far down or far across.
    pub fn extreme(&mut self, rng: &mut Rng) -> Tree {
        if rng.one_in(3) {
            // hundreds of entries side by side
            let n = rng.usize(100, 700);
            let mut kids: Vec<(String, Tree)> = Vec::new();
            for i in 0..n {
                self.budget = 2;
                let t = if rng.one_in(10) { self.tree(rng, 1) } else { self.small(rng) };
                kids.push((format!("{}{}", *rng.pick(&["", "x", "é", "00"]), i), t));
            }
            rng.shuffle(&mut kids);
            let meta = Meta::sparse(rng);
            return match rng.below(3) {
                0 => Tree::Dir { meta, kids },
                1 => Tree::Hamt {
                    meta,
                    root: hashed_shard(rng, kids, 0),
                },
                _ => Tree::Hamt {
                    meta,
                    root: loose_shard(rng, kids, 8),
                },
            };
        }
        let n = rng.usize(8, 120);
        let mut t = self.tree(rng, 1);
        for _ in 0..n {
            let k = rng.usize(1, 3);
            let mut kids: Vec<(String, Tree)> =
                distinct_names(rng, k).into_iter().map(|n| (n, self.small(rng))).collect();
            let i = rng.idx(kids.len());
            kids[i].1 = t;
            let meta = Meta::sparse(rng);
            t = match rng.below(4) {
                0 if self.hamt => {
                    // buckets below buckets
                    let mut root = loose_shard(rng, kids, 3);
                    for _ in 0..rng.below(5) {
                        let mut slots = vec![(prefix(rng), Slot::Bucket(root))];
                        if rng.one_in(3) {
                            slots.insert(
                                rng.idx(2),
                                (
                                    prefix(rng),
                                    Slot::Bucket(Shard {
                                        slots: Vec::new(),
                                        bitfield: bitfield(rng),
                                    }),
                                ),
                            );
                        }
                        root = Shard {
                            slots,
                            bitfield: bitfield(rng),
                        };
                    }
                    Tree::Hamt { meta, root }
                }
                1 if self.hamt => Tree::Hamt {
                    meta,
                    root: hashed_shard(rng, kids, 0),
                },
                _ => Tree::Dir { meta, kids },
            };
        }
        t
    }

    fn small(&mut self, rng: &mut Rng) -> Tree {
        match rng.below(4) {
            0 => Tree::Symlink {
                meta: Meta::sparse(rng),
                target: target(rng),
            },
            1 => Tree::Dir {
                meta: Meta::sparse(rng),
                kids: Vec::new(),
            },
            _ => Tree::File {
                meta: Meta::sparse(rng),
                dag: Shape::random(rng).leaf(rng),
            },
        }
    }

    fn width(&mut self, rng: &mut Rng, depth: usize) -> usize {
        if depth == 0 || self.budget == 0 {
            0
        } else {
            rng.idx(self.max_kids + 1)
        }
    }

    fn kids(&mut self, rng: &mut Rng, depth: usize) -> Vec<(String, Tree)> {
        let n = self.width(rng, depth);
        let names = distinct_names(rng, n);
        let mut kids: Vec<(String, Tree)> = Vec::new();
        for name in names {
            let t = if self.share && !kids.is_empty() && rng.one_in(3) {
                kids[rng.idx(kids.len())].1.clone()
            } else {
                self.tree(rng, depth.saturating_sub(1))
            };
            kids.push((name, t));
        }
        kids
    }

    pub fn dir(&mut self, rng: &mut Rng, depth: usize) -> Tree {
        let kids = self.kids(rng, depth);
        Tree::Dir {
            meta: Meta::sparse(rng),
            kids,
        }
    }

    pub fn hamt(&mut self, rng: &mut Rng, depth: usize) -> Tree {
        let kids = self.kids(rng, depth);
        let root = if rng.one_in(3) {
            hashed_shard(rng, kids, 0)
        } else {
            loose_shard(rng, kids, 3)
        };
        Tree::Hamt {
            meta: Meta::sparse(rng),
            root,
        }
    }
}

/// Two bytes: almost always the hexadecimal digits everybody writes.
fn prefix(rng: &mut Rng) -> String {
    match rng.below(40) {
        0 => format!("{:02x}", rng.below(256)),
        1 => rng.pick(&["zz", "  ", "--", "/.", "..", "é", "0 ", "\u{0}A"]).to_string(),
        _ => format!("{:02X}", rng.below(256)),
    }
}

/// Entries spread over buckets of no particular order: what readers have to cope with, since they do
/// not know how the writer placed the names.
pub fn loose_shard(rng: &mut Rng, kids: Vec<(String, Tree)>, depth: usize) -> Shard {
    let mut groups: Vec<Vec<(String, Tree)>> = Vec::new();
    let mut slots = Vec::new();
    let buckets = if depth == 0 { 0 } else { rng.idx(3) };
    for _ in 0..buckets {
        groups.push(Vec::new());
    }
    for k in kids {
        if groups.is_empty() || rng.bool() {
            slots.push((prefix(rng), Slot::Entry(k.0, k.1)));
        } else {
            let i = rng.idx(groups.len());
            groups[i].push(k);
        }
    }
    for g in groups {
        let at = rng.idx(slots.len() + 1);
        let sub = loose_shard(rng, g, depth - 1);
        slots.insert(at, (prefix(rng), Slot::Bucket(sub)));
    }
    Shard {
        slots,
        bitfield: bitfield(rng),
    }
}

fn bitfield(rng: &mut Rng) -> Option<Vec<u8>> {
    match rng.below(3) {
        0 => None,
        1 => Some(Vec::new()),
        _ => {
            let n = rng.usize(1, 32);
            Some(rng.bytes(n))
        }
    }
}

/// Entries placed the way go-ipfs does: by the bytes of the murmur3 hash of the name.
pub fn hashed_shard(rng: &mut Rng, kids: Vec<(String, Tree)>, level: usize) -> Shard {
    let mut by: std::collections::BTreeMap<u8, Vec<(String, Tree)>> = Default::default();
    for k in kids {
        let h = crate::util::murmur3_h1(k.0.as_bytes()).to_be_bytes();
        by.entry(h[level % 8]).or_default().push(k);
    }
    let mut bits = [0u8; 32];
    let mut slots = Vec::new();
    for (b, mut g) in by {
        bits[31 - b as usize / 8] |= 1 << (b % 8);
        let p = format!("{:02X}", b);
        if g.len() == 1 {
            let (n, t) = g.pop().unwrap();
            slots.push((p, Slot::Entry(n, t)));
        } else {
            let sub = hashed_shard(rng, g, level + 1);
            slots.push((p, Slot::Bucket(sub)));
        }
    }
    let first = bits.iter().position(|b| *b != 0).unwrap_or(32);
    Shard {
        slots,
        bitfield: Some(bits[first..].to_vec()),
    }
}

pub fn target(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => Vec::new(),
        1 => b"../b".to_vec(),
        2 => {
            let n = rng.usize(1, 300);
            rng.bytes(n)
        }
        _ => name(rng).into_bytes(),
    }
}

/// What careless normalization or comparison of names could take for the same; it never is.
pub fn variant(rng: &mut Rng, n: &str) -> String {
    let cs: Vec<char> = n.chars().collect();
    let some = |rng: &mut Rng| if cs.is_empty() { 0 } else { rng.idx(cs.len()) };
    match rng.below(20) {
        0 => format!("{}x", n),
        1 => format!("x{}", n),
        2 => cs[..cs.len().saturating_sub(1)].iter().collect(),
        3 => cs.iter().skip(1).collect(),
        4 => cs.iter().skip(2).collect(),
        5 => n.to_uppercase(),
        6 => n.to_lowercase(),
        7 => format!("{:02X}{}", rng.below(256), n),
        8 => format!("{}\u{0}", n),
        9 => format!("{}{}", n, rng.pick(&["/", "//", "/.", "/..", "/x", "\\"])),
        10 => format!("{}{}", rng.pick(&["/", "./", "../", "//", "~", "\u{feff}"]), n),
        11 => format!("{}{}", n, rng.pick(&[" ", "\n", "\t", "\r\n", "\u{a0}", "\u{200d}", "\u{301}"])),
        12 => format!("{}{}", rng.pick(&[" ", "\n", "\t", "\u{0}"]), n),
        13 => format!("{}{}", n, rng.pick(&[".", "~", ":", "*", "?x", "#x", ";1", "%00"])),
        14 => {
            // one character encoded, or a pattern for it
            let at = some(rng);
            let by = rng.pick(&["%61", "?", "*", ".", "", "\u{fffd}"]).to_string();
            cs.iter()
                .enumerate()
                .map(|(i, c)| if i == at { by.clone() } else { c.to_string() })
                .collect()
        }
        15 => cs.iter().rev().collect(),
        16 if n.len() < 500 => n.repeat(2),
        17 => n.trim().trim_matches('.').trim_matches('/').to_string(),
        18 => n.replace('e', "é").replace('a', "A").replace('\u{e9}', "e\u{301}"),
        _ => {
            let at = some(rng);
            cs.iter()
                .enumerate()
                .map(|(i, c)| if i == at { c.to_string().repeat(2) } else { c.to_string() })
                .collect()
        }
    }
}

/// A link name which is a single ordinary path component.
pub fn name(rng: &mut Rng) -> String {
    if rng.one_in(12) {
        let n = name(rng);
        let v = variant(rng, &n);
        return if is_normal(&v) { v } else { n };
    }
    match rng.below(16) {
        0 => "a".into(),
        1 => "b".into(),
        2 => rng
            .pick(&[
                "...", "..a", ".hidden", "a.", " ", "a b", "~", "a\\b", "new\nline", "\u{0}x", "-", "FA", "00",
                "FAFA", "C:", "%2F", "*",
            ])
            .to_string(),
        3 => rng
            .pick(&["é", "日本", "🦀", "ß", "\u{301}x", "a\u{200d}b", "Ω", "ÅÅ", "é", "xé"])
            .to_string(),
        4 => {
            let n = if rng.one_in(8) { rng.usize(1000, 9000) } else { rng.usize(100, 300) };
            rng.pick(&["n", "n", "é", "ab"]).repeat(n)
        }
        5 => format!("{:02X}{}", rng.below(256), rng.below(4)),
        6 => format!("{:02X}", rng.below(256)),
        7 | 8 => format!("f{}", rng.below(30)),
        _ => {
            let n = rng.usize(1, 6);
            (0..n).map(|_| *rng.pick(&['a', 'b', 'c', 'Z', '0', '9', '_', '-', '.', 'é'])).collect::<String>()
        }
    }
}

pub fn is_normal(n: &str) -> bool {
    !n.is_empty() && n != "." && n != ".." && !n.contains('/')
}

pub fn distinct_names(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let mut tries = 0;
    while out.len() < n {
        let mut s = match out.last() {
            // easily mixed up with another one
            Some(last) if rng.one_in(10) => variant(rng, last),
            _ => name(rng),
        };
        tries += 1;
        if tries > 50 {
            s = format!("{}#{}", s, tries);
        }
        if is_normal(&s) && !out.contains(&s) {
            out.push(s);
        }
    }
    out
}

/// A root name for a walk: nothing, a name, or a few components.
pub fn root_name(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => String::new(),
        1 | 2 => distinct_names(rng, 1).pop().unwrap(),
        _ => {
            let n = rng.usize(2, 4);
            distinct_names(rng, n).join("/")
        }
    }
}
