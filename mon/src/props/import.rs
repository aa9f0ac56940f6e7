//! A01 - A04: importing files.

use super::{Prop, EXPLORED, ORACLE};
use crate::drive::{visit, walk};
use crate::model::{balanced_above, balanced_layout, balanced_leaf, Kind, Nd, Store};
use crate::util::{cid_of, fp, fp2, hexs, Rng};
use crate::{ensure, pbo, same, Case, Fail, R};
use std::collections::{HashMap, HashSet};
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "A01",
        title: "An imported file reads back byte for byte",
        run: a01,
        quick: 8000,
        rule: "The first 492 cases enumerate chunk size 1..4 x branching factor 2..4 x length 0..40; the others draw sizes (up to usize::MAX), content, feeding and length at random, biased to chunk and link-block boundaries. The emitted blocks are read back by the visitor and for every third case by the walker. A case is non-trivial when it emitted at least one block and was read to its end; distinct by configuration, content and feeding.",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "A02",
        title: "Import result does not depend on how the input is fed",
        run: a02,
        quick: 6000,
        rule: "The first 80 cases run every composition of a short content (0..9 bytes, chunk size 1..4, branching factor 2..3) into pushes; the others compare a random splitting, with empty pushes, to feeding everything at once. Every push is monitored for what it consumed and returned. Non-trivial when at least one push was observed.",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "A03",
        title: "Imported blocks form a complete, correctly addressed DAG",
        run: a03,
        quick: 8000,
        rule: "Cases as in A01. An offline checker goes over the recorded sequence of emitted blocks: identifier = own hash of the bytes, links point backwards, everything but the last is linked from later on, everything is reachable from the last. Non-trivial when at least one block was emitted.",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "A04",
        title: "Imported file layout is the balanced layout, bit for bit",
        run: a04,
        quick: 8000,
        rule: "Cases as in A01. The recorded blocks are compared as a multiset of bytes, and by their last block, with those of an independent model of the balanced layout with its own protobuf encoder. Case 1000 imports more than 4 GiB of zeros. Non-trivial when at least one block was compared.",
        assumptions: &[ORACLE, EXPLORED, "The order of emission is decided by A03 and A02, not here."],
    },
];

/// How the content is fed.
#[derive(Clone, Debug)]
pub enum Feed {
    All,
    Hint,
    Fixed(usize),
    Random(u64),
}

impl Feed {
    pub fn random(rng: &mut Rng) -> Feed {
        match rng.below(5) {
            0 => Feed::All,
            1 => Feed::Hint,
            2 => Feed::Fixed(rng.usize(1, 40)),
            _ => Feed::Random(rng.next()),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Config {
    pub chunk: Option<usize>,
    pub k: Option<usize>,
}

impl Config {
    pub fn chunk_size(&self) -> usize {
        self.chunk.unwrap_or(256 * 1024)
    }
    pub fn branching(&self) -> usize {
        self.k.unwrap_or(174)
    }
    pub fn adder(&self) -> FileAdder {
        if self.chunk.is_none() && self.k.is_none() {
            return FileAdder::default();
        }
        let mut b = FileAdder::builder();
        if let Some(c) = self.chunk {
            b = b.with_chunker(Chunker::Size(c));
        }
        if let Some(k) = self.k {
            b = b.with_collector(BalancedCollector::with_branching_factor(k));
        }
        b.build()
    }
}

/// What pushing was observed to do.
#[derive(Default)]
pub struct Pushes {
    pub pushes: u64,
    pub blocks: Vec<(Vec<u8>, Vec<u8>)>,
}

/// Pushes one piece until it is used up.
pub fn push_all(adder: &mut FileAdder, piece: &[u8], fill: &mut u64, chunk: usize, p: &mut Pushes) -> R {
    let mut rest = piece;
    loop {
        let (blocks, used) = adder.push(rest);
        let got: Vec<_> = blocks.map(|(c, b)| (c.to_bytes(), b)).collect();
        p.pushes += 1;
        ensure!(
            used <= rest.len(),
            "a push of {} bytes reports {} bytes consumed",
            rest.len(),
            used
        );
        ensure!(
            used > 0 || rest.is_empty(),
            "a push of {} bytes consumed nothing",
            rest.len()
        );
        ensure!(got.len() <= 2, "a push returned {} blocks", got.len());
        let room = chunk as u64 - *fill;
        ensure!(
            used as u64 <= room,
            "a push consumed {} bytes, with {} bytes left in the chunk",
            used,
            room
        );
        *fill = (*fill + used as u64) % chunk as u64;
        p.blocks.extend(got);
        rest = &rest[used..];
        if rest.is_empty() {
            return Ok(());
        }
    }
}

pub fn import(cfg: &Config, content: &[u8], feed: &Feed) -> Result<Pushes, Fail> {
    let mut adder = cfg.adder();
    let mut p = Pushes::default();
    let mut fill = 0;
    let chunk = cfg.chunk_size();
    let mut r = Rng::new(if let Feed::Random(s) = feed { *s } else { 0 });
    let mut at = 0;
    while at < content.len() {
        let n = match feed {
            Feed::All => content.len(),
            Feed::Hint => adder.size_hint().max(1),
            Feed::Fixed(n) => *n,
            Feed::Random(_) => match r.below(4) {
                0 => 0,
                1 => r.usize(1, 3),
                2 => r.usize(1, chunk.min(4096) * 3),
                _ => r.usize(1, content.len()),
            },
        };
        let end = at.saturating_add(n).min(content.len());
        push_all(&mut adder, &content[at..end], &mut fill, chunk, &mut p)?;
        at = end;
    }
    let last: Vec<_> = adder.finish().map(|(c, b)| (c.to_bytes(), b)).collect();
    p.blocks.extend(last);
    ensure!(!p.blocks.is_empty(), "importing emitted no blocks at all");
    Ok(p)
}

pub fn store_of(blocks: &[(Vec<u8>, Vec<u8>)]) -> Store {
    let mut s = Store::default();
    for (c, b) in blocks {
        s.map.insert(c.clone(), b.clone());
    }
    s
}

const ENUM: u64 = 492;

fn content(rng: &mut Rng, n: usize, chunk: usize) -> Vec<u8> {
    match rng.below(4) {
        // repeated chunks
        0 => {
            let pat = rng.bytes(chunk.min(64).max(1));
            (0..n).map(|i| pat[i % pat.len()]).collect()
        }
        1 => vec![rng.next() as u8; n],
        2 => (0..n).map(|i| (i * 7 + i / 256) as u8).collect(),
        _ => rng.bytes(n),
    }
}

/// Configuration, content and feeding of a case.
pub(super) fn case(c: &mut Case) -> (Config, Vec<u8>, Feed) {
    let i = c.idx;
    let thorough = c.thorough();
    let rng = &mut c.rng.clone();
    if let Some(which) = c.large {
        if which == 3 {
            // chunks beyond 24 bits
            let chunk = *rng.pick(&[1 << 24, 5 << 22, 3 << 23, 1 << 25]) + rng.usize(0, 4) - 2;
            let n = chunk / 4 * rng.usize(4, 9) + rng.usize(0, 2) - 1;
            let data = (0..n as u64).map(|i| i.wrapping_mul(0x9e37_79b9_7f4a_7c15).to_le_bytes()[7]).collect();
            let feed = match rng.below(5) {
                0 => Feed::All,
                1 => Feed::Hint,
                2 => Feed::Fixed(rng.usize(100_000, 5_000_000)),
                3 => Feed::Fixed(rng.usize(1 << 23, 1 << 25)),
                _ => Feed::Random(rng.next()),
            };
            let cfg = Config {
                chunk: Some(chunk),
                k: Some(rng.usize(2, 4)),
            };
            return (cfg, data, feed);
        }
        // more chunks, or more links in a block, than 16 bits count
        let n = rng.usize(65_600, 75_000);
        let (chunk, k) = match if which == 1 { rng.below(3) } else { 3 + which } {
            0 => (1, 2),
            1 => (1, rng.usize(3, 300)),
            3 => (2, 65_537 + rng.usize(0, 3)),
            2 => (1, rng.usize(65_000, 65_536)),
            _ => (3, n + rng.usize(0, 3) - 1),
        };
        let len = n * chunk - rng.usize(0, chunk - 1);
        let d = rng.bytes(len);
        let cfg = Config {
            chunk: Some(chunk),
            k: Some(k),
        };
        return (cfg, d, Feed::random(rng));
    }
    if i < ENUM {
        let chunk = (i % 4) as usize + 1;
        let k = (i / 4 % 3) as usize + 2;
        let n = (i / 12) as usize;
        let cfg = Config {
            chunk: Some(chunk),
            k: Some(k),
        };
        let data = (0..n).map(|x| x as u8).collect();
        return (cfg, data, Feed::random(rng));
    }
    if rng.one_in(if thorough { 100 } else { 250 }) {
        // the defaults: 256 KiB chunks, 174 links
        let chunks = rng.usize(0, 6);
        let d = rng.usize(0, 2) as i64 - 1;
        let n = (chunks as i64 * 256 * 1024 + d).max(0) as usize;
        let mut data = vec![0u8; n];
        for (i, b) in data.iter_mut().enumerate() {
            *b = (i as u64).wrapping_mul(0x9e37_79b9) as u8;
        }
        let feed = match rng.below(3) {
            0 => Feed::All,
            1 => Feed::Hint,
            _ => Feed::Fixed(rng.usize(1000, 300_000)),
        };
        return (Config { chunk: None, k: None }, data, feed);
    }
    if rng.one_in(if thorough { 60 } else { 150 }) {
        // chunks around and beyond a mebibyte, of which some get full
        let chunk = *rng.pick(&[(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 19, 3 << 20]);
        let quarters = rng.usize(2, 9);
        let n = (chunk / 4 * quarters).min(4 << 20) + rng.usize(0, 2) - 1;
        let mut data = vec![0u8; n];
        for (i, b) in data.iter_mut().enumerate() {
            *b = (i as u64).wrapping_mul(0x9e37_79b9) as u8;
        }
        let feed = match rng.below(4) {
            0 => Feed::All,
            1 => Feed::Hint,
            2 => Feed::Fixed(rng.usize(1000, 300_000)),
            _ => Feed::Random(rng.next()),
        };
        let cfg = Config {
            chunk: Some(chunk),
            k: Some(rng.usize(2, 4)),
        };
        return (cfg, data, feed);
    }
    let k = match rng.below(10) {
        0..=5 => Some(rng.usize(2, 6)),
        6 => Some(rng.usize(7, 40)),
        7 => None,
        8 => Some(*rng.pick(&[173, 174, 175, 256, 1000, 1 << 16])),
        _ => Some(*rng.pick(&[1 << 20, 1 << 40, usize::MAX / 64, usize::MAX - 1, usize::MAX])),
    };
    let chunk = match rng.below(10) {
        0..=4 => rng.usize(1, 5),
        5 | 6 => rng.usize(6, 40),
        7 => rng.usize(41, 1000),
        8 => *rng.pick(&[1024, 4096, 65536]),
        _ => *rng.pick(&[1 << 20, 1 << 32, 1 << 62, usize::MAX - 1, usize::MAX]),
    };
    // number of chunks, near the boundaries of the levels half of the time
    let kk = k.unwrap_or(174);
    let cap: u64 = if thorough { 3000 } else { 700 };
    let leaves = if rng.bool() {
        let mut p = 1u64;
        for _ in 0..rng.below(6) {
            if p.saturating_mul(kk as u64) > cap {
                break;
            }
            p *= kk as u64;
        }
        let m = rng.range(1, (cap / p).clamp(1, kk as u64));
        p.saturating_mul(m).min(cap)
    } else {
        let hi = *rng.pick(&[3, 30, 200, cap]);
        rng.range(0, hi)
    };
    let whole = leaves.saturating_mul(chunk as u64).min(150_000);
    let d: i64 = *rng.pick(&[0, 0, 0, -1, 1, 2]);
    let n = (whole as i64 + d).max(0) as usize;
    let data = content(rng, n, chunk);
    let cfg = Config {
        chunk: Some(chunk),
        k,
    };
    (cfg, data, Feed::random(rng))
}

fn key(cfg: &Config, data: &[u8], feed: &Feed) -> u64 {
    fp2(
        fp(format!("{:?}{:?}", cfg, feed).as_bytes()),
        fp2(data.len() as u64, fp(&data[..data.len().min(2000)])),
    )
}

fn a01(c: &mut Case) -> R {
    if c.idx < 2 {
        // importing could not end with less than two links in a block
        let k = c.idx as usize;
        let r = std::panic::catch_unwind(|| format!("{:?}", BalancedCollector::with_branching_factor(k)));
        ensure!(r.is_err(), "a branching factor of {} is not refused: {:?}", k, r);
        c.add("branching factors refused", 1);
    }
    let (cfg, data, feed) = case(c);
    c.describe(|| format!("{:?} {:?} content of {} bytes: {}", cfg, feed, data.len(), hexs(&data)));
    let got = import(&cfg, &data, &feed)?;
    let store = store_of(&got.blocks);
    let root = got.blocks.last().unwrap().0.clone();
    let limit = got.blocks.len() + 2;
    if c.large.is_some() {
        // without a record of what was announced at every step
        return super::large::read_back(c, &store, &root, &data);
    }
    let log = visit(&store, &root, None, &mut None, limit)?;
    ensure!(
        log.err.is_none(),
        "reading back {} bytes ({:?}) fails: {}",
        data.len(),
        cfg,
        log.brief()
    );
    for (i, s) in log.steps.iter().enumerate() {
        if let Some(t) = s.total {
            same!(t, data.len() as u64, "total size after block {} of the read, {:?}", i, cfg);
        }
    }
    let back = log.bytes();
    ensure!(
        back == data,
        "{:?}: {} bytes were imported, {} bytes are read back, first difference at {:?}",
        cfg,
        data.len(),
        back.len(),
        back.iter().zip(&data).position(|(a, b)| a != b)
    );
    if c.idx % 3 == 0 {
        let w = walk(&store, &root, "", &mut None, limit)?;
        ensure!(w.err.is_none(), "walking the imported file fails: {}", w.brief());
        let mut back = Vec::new();
        for s in &w.steps {
            same!(s.ev.kind, Kind::File, "kind of a block of an imported file");
            same!(s.ev.total, data.len() as u64, "total size reported by the walk");
            back.extend_from_slice(&s.ev.bytes);
        }
        ensure!(back == data, "the walk gives other bytes than were imported ({:?})", cfg);
        c.add("walked back", 1);
    }
    let depth = balanced_depth(data.len() as u64, cfg.chunk_size() as u64, cfg.branching() as u64);
    c.distinct("tree depths", depth);
    c.distinct("configurations", fp(format!("{:?}", cfg).as_bytes()));
    c.add("blocks emitted", got.blocks.len() as u64);
    c.add("blocks read back", log.steps.len() as u64);
    c.add("bytes compared", data.len() as u64);
    c.max("max_tree_depth", depth);
    c.counts(key(&cfg, &data, &feed));
    Ok(())
}

fn balanced_depth(n: u64, chunk: u64, k: u64) -> u64 {
    let mut m = n.div_ceil(chunk).max(1);
    let mut d = 1;
    while m > 1 {
        m = m.div_ceil(k);
        d += 1;
    }
    d
}

fn a02(c: &mut Case) -> R {
    if c.idx < 80 && c.large.is_none() {
        let n = (c.idx % 10) as usize;
        let chunk = (c.idx / 10 % 4) as usize + 1;
        let k = (c.idx / 40) as usize + 2;
        let cfg = Config {
            chunk: Some(chunk),
            k: Some(k),
        };
        let data: Vec<u8> = (0..n as u8).collect();
        let reference = import(&cfg, &data, &Feed::All)?;
        let mut seen = 0;
        for cut in 0..1u32 << n.saturating_sub(1) {
            // bit i: a new push starts after byte i
            let mut adder = cfg.adder();
            let mut p = Pushes::default();
            let mut fill = 0;
            let mut at = 0;
            for i in 0..n {
                if i + 1 == n || cut >> i & 1 == 1 {
                    push_all(&mut adder, &data[at..=i], &mut fill, chunk, &mut p)?;
                    at = i + 1;
                }
            }
            p.blocks.extend(adder.finish().map(|(c, b)| (c.to_bytes(), b)));
            compare(&reference, &p, || format!("{:?}, {} bytes, cuts {:b}", cfg, n, cut))?;
            c.add("pushes monitored", p.pushes);
            c.distinct("splittings", fp2(c.idx, cut as u64));
            seen += 1;
        }
        c.add("splittings compared", seen);
        c.counts(fp2(1, c.idx));
        return Ok(());
    }
    c.idx += ENUM;
    let (cfg, data, feed) = case(c);
    let feed = match feed {
        Feed::All => Feed::Random(c.rng.next()),
        f => f,
    };
    c.describe(|| format!("{:?} {:?} against one piece, content of {} bytes: {}", cfg, feed, data.len(), hexs(&data)));
    let a = import(&cfg, &data, &Feed::All)?;
    let b = import(&cfg, &data, &feed)?;
    compare(&a, &b, || format!("{:?}, {} bytes, {:?}", cfg, data.len(), feed))?;
    // and with a push of nothing before, after and in between
    let mut adder = cfg.adder();
    let mut p = Pushes::default();
    let mut fill = 0;
    let chunk = cfg.chunk_size();
    push_all(&mut adder, &[], &mut fill, chunk, &mut p)?;
    let mid = c.rng.idx(data.len() + 1);
    push_all(&mut adder, &data[..mid], &mut fill, chunk, &mut p)?;
    push_all(&mut adder, &[], &mut fill, chunk, &mut p)?;
    push_all(&mut adder, &data[mid..], &mut fill, chunk, &mut p)?;
    push_all(&mut adder, &[], &mut fill, chunk, &mut p)?;
    p.blocks.extend(adder.finish().map(|(c, b)| (c.to_bytes(), b)));
    compare(&a, &p, || format!("{:?}, {} bytes, empty pushes around a cut at {}", cfg, data.len(), mid))?;
    c.add("pushes monitored", a.pushes + b.pushes + p.pushes);
    c.add("splittings compared", 2);
    c.add("blocks compared", 2 * a.blocks.len() as u64);
    c.distinct("configurations", fp(format!("{:?}", cfg).as_bytes()));
    c.counts(key(&cfg, &data, &feed));
    Ok(())
}

fn compare(a: &Pushes, b: &Pushes, what: impl Fn() -> String) -> R {
    for (i, (x, y)) in a.blocks.iter().zip(&b.blocks).enumerate() {
        ensure!(
            x == y,
            "{}: emitted block {} differs from when everything is pushed at once: {} and {}",
            what(),
            i,
            hexs(&y.1),
            hexs(&x.1)
        );
    }
    ensure!(
        a.blocks.len() == b.blocks.len(),
        "{}: {} blocks emitted, {} when everything is pushed at once",
        what(),
        b.blocks.len(),
        a.blocks.len()
    );
    Ok(())
}

fn a03(c: &mut Case) -> R {
    let (cfg, data, feed) = case(c);
    c.describe(|| format!("{:?} {:?} content of {} bytes: {}", cfg, feed, data.len(), hexs(&data)));
    let got = import(&cfg, &data, &feed)?.blocks;
    let mut at: HashMap<&[u8], Vec<usize>> = HashMap::new();
    let mut linked_by: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut links = 0;
    for (i, (cid, block)) in got.iter().enumerate() {
        ensure!(
            *cid == cid_of(block),
            "{:?}, {} bytes: block {} is emitted as {}, its bytes hash to {}",
            cfg,
            data.len(),
            i,
            crate::util::hex(cid),
            crate::util::hex(&cid_of(block))
        );
        let (node, _) = pbo::dec_node(block).map_err(|e| Fail(format!("emitted block {} is not dag-pb: {:?} {}", i, e, hexs(block))))?;
        for l in &node.links {
            ensure!(
                at.contains_key(l.hash_bytes()),
                "{:?}, {} bytes: block {} links to {}, which was not emitted before",
                cfg,
                data.len(),
                i,
                crate::util::hex(l.hash_bytes())
            );
            linked_by.insert(l.hash_bytes().to_vec(), i);
            links += 1;
        }
        at.entry(cid).or_default().push(i);
    }
    let last = got.len() - 1;
    for (i, (cid, _)) in got[..last].iter().enumerate() {
        ensure!(
            linked_by.get(cid).is_some_and(|by| *by > i),
            "{:?}, {} bytes: block {} of {} is not linked from any later block",
            cfg,
            data.len(),
            i,
            got.len()
        );
    }
    let mut seen: HashSet<&[u8]> = HashSet::new();
    let mut todo = vec![got[last].0.as_slice()];
    while let Some(x) = todo.pop() {
        if seen.insert(x) {
            for k in pbo::children(&got[at[x][0]].1) {
                if let Some((k, _)) = at.get_key_value(k.as_slice()) {
                    todo.push(k);
                }
            }
        }
    }
    ensure!(
        seen.len() == at.len(),
        "{:?}, {} bytes: {} of {} blocks are reached from the last one",
        cfg,
        data.len(),
        seen.len(),
        at.len()
    );
    c.add("blocks emitted", got.len() as u64);
    c.add("links checked", links);
    c.distinct("configurations", fp(format!("{:?}", cfg).as_bytes()));
    c.counts(key(&cfg, &data, &feed));
    Ok(())
}

/// A file beyond 4 GiB, all zeros: the sizes in it do not fit into 32 bits.
fn a04_huge(c: &mut Case) -> R {
    let chunk = 1usize << 25;
    let k = c.rng.usize(2, 5);
    let whole = c.rng.usize(128, 131);
    let tail = c.rng.usize(1, 100);
    c.describe(|| format!("{} chunks of {} bytes and {} bytes, {} links for a block", whole, chunk, tail, k));
    let zeros = vec![0u8; chunk];
    let (leaf, want) = balanced_leaf(&zeros);
    let (last, want_last) = balanced_leaf(&zeros[..tail]);
    let cfg = Config {
        chunk: Some(chunk),
        k: Some(k),
    };
    let mut adder = cfg.adder();
    let mut got: Vec<Vec<u8>> = Vec::new();
    let mut leaves = 0;
    let mut take = |b: Vec<u8>| {
        if b == want {
            leaves += 1;
        } else {
            got.push(b);
        }
    };
    for i in 0..=whole {
        crate::still_going();
        let mut rest = if i < whole { &zeros[..] } else { &zeros[..tail] };
        while !rest.is_empty() {
            let (blocks, used) = adder.push(rest);
            blocks.for_each(|(_, b)| take(b));
            ensure!(used > 0 && used <= rest.len(), "a push of {} bytes consumed {}", rest.len(), used);
            rest = &rest[used..];
        }
    }
    adder.finish().for_each(|(_, b)| take(b));
    same!(leaves, whole, "number of full leaves of a file of {} bytes", whole * chunk + tail);
    let mut level: Vec<Nd> = (0..whole)
        .map(|_| Nd {
            cid: leaf.cid.clone(),
            ..leaf
        })
        .collect();
    level.push(last);
    let mut links = vec![want_last];
    let (root, _) = balanced_above(level, k, &mut links);
    let at = got.last().map(|b| cid_of(b));
    same!(at.as_ref(), Some(&root.cid), "last emitted block of a file of {} bytes", root.size);
    got.sort();
    links.sort();
    ensure!(
        got == links,
        "the link blocks of a file of {} bytes are not those of the balanced layout: {:?} and {:?}",
        root.size,
        got.iter().map(|b| hexs(b)).collect::<Vec<_>>(),
        links.iter().map(|b| hexs(b)).collect::<Vec<_>>()
    );
    c.add("files beyond 4 GiB", 1);
    c.add("blocks compared", (got.len() + leaves) as u64);
    c.counts(fp2(k as u64, (whole * 100 + tail) as u64));
    Ok(())
}

fn a04(c: &mut Case) -> R {
    if c.idx == 1000 {
        return a04_huge(c);
    }
    let (cfg, data, feed) = case(c);
    c.describe(|| format!("{:?} {:?} content of {} bytes: {}", cfg, feed, data.len(), hexs(&data)));
    let got = import(&cfg, &data, &feed)?.blocks;
    let want = balanced_layout(&data, cfg.chunk_size(), cfg.branching());
    let mut count: HashMap<&[u8], i64> = HashMap::new();
    for b in &want.blocks {
        *count.entry(b).or_default() += 1;
    }
    for (i, (_, b)) in got.iter().enumerate() {
        let n = count.entry(b).or_default();
        *n -= 1;
        ensure!(
            *n >= 0,
            "{:?}, {} bytes: emitted block {} of {} is not a block of the balanced layout (of {}), or once too often: {}",
            cfg,
            data.len(),
            i,
            got.len(),
            want.blocks.len(),
            hexs(b)
        );
    }
    if let Some((b, n)) = count.iter().find(|(_, n)| **n > 0) {
        return Err(Fail(format!(
            "{:?}, {} bytes: block of the balanced layout not emitted ({} times): {}",
            cfg,
            data.len(),
            n,
            hexs(b)
        )));
    }
    same!(
        crate::util::hex(&cid_of(&got.last().unwrap().1)),
        crate::util::hex(&want.root),
        "{:?}, {} bytes: last emitted block",
        cfg,
        data.len()
    );
    c.add("blocks compared", got.len() as u64);
    c.max("max_tree_depth", want.depth as u64);
    c.distinct("configurations", fp(format!("{:?}", cfg).as_bytes()));
    c.counts(key(&cfg, &data, &feed));
    Ok(())
}
