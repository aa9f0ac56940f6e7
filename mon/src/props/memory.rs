//! X05: what is retained between the steps of long operations.

use super::{Prop, EXPLORED};
use crate::drive::{cid_from, lend};
use crate::model::{Ink, Meta, Sparse, Store};
use crate::pbo::{self, Link, Msg};
use crate::util::{cid_of, fp2, Rng};
use crate::{ensure, live, Case, Fail, R};
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
use unixfs_v1::dir::MaybeResolved;
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::walk::Walker;

pub static PROPS: &[Prop] = &[Prop {
    id: "X05",
    title: "Long operations retain memory for what is pending only",
    run: x05,
    quick: 2000,
    rule: "visits (whole and ranged) of files of up to 2^63 bytes whose blocks share subtrees, walks over directories and shards with exponentially many paths, lookups over such shards, imports of up to 30000 chunks, each for thousands of steps, and two thousand tiny operations in a row; a counting allocator tells how many bytes are in use after every step; counted when at least one step was measured",
    assumptions: &[EXPLORED, "The bounds are 32 KiB and for each link announced as pending at most so far 512 bytes (walks: 1 KiB and four times the longest path), for imports two chunks, 32 KiB and 512 bytes for each link not yet in a block; 32 KiB after two thousand tiny operations. Less than that is not noticed."],
}];

/// Where the blocks come from.
enum Blocks {
    Stored(Store),
    Made(Made),
}

impl Blocks {
    fn get(&self, cid: &[u8]) -> Result<crate::drive::Loan, Fail> {
        match self {
            Blocks::Stored(s) => s.get(cid).map(lend),
            Blocks::Made(m) => m.block(cid).map(|b| lend(&b)),
        }
        .ok_or_else(|| Fail("requests a foreign block".into()))
    }
}

/// A tree without end, every block of which is made when it is asked for and has an identifier of
/// its own, from which it is made.
#[derive(Debug)]
struct Made {
    salt: u64,
    fan: u64,
    /// Every block has one child like itself, and others which end at once.
    chain: bool,
    /// Levels of inner nodes of files.
    levels: u8,
    long: bool,
}

#[derive(Clone, Copy)]
enum Part {
    File = 0,
    Dir = 1,
    Shard = 2,
    Bucket = 3,
    Link = 4,
    /// Of a shard which has nothing but buckets.
    Only = 5,
}

impl Made {
    fn random(rng: &mut Rng) -> Made {
        let fan = rng.range(2, 40);
        let mut levels = 1;
        while fan.pow(levels + 1) < 1 << 40 {
            levels += 1;
        }
        Made {
            salt: rng.next(),
            fan,
            chain: rng.one_in(4),
            levels: levels as u8,
            long: rng.one_in(4),
        }
    }
    fn total(&self, level: u8) -> u64 {
        self.fan.pow(level as u32) * 4
    }
    fn cid(&self, part: Part, level: u8, n: u64) -> Vec<u8> {
        let mut c = vec![1, 0x70, 0x12, 32];
        c.extend(self.salt.to_le_bytes());
        c.extend([part as u8, level]);
        c.extend(n.to_le_bytes());
        c.resize(36, 0xaa);
        c
    }
    fn block(&self, cid: &[u8]) -> Option<Vec<u8>> {
        if cid.len() != 36 || cid[4..12] != self.salt.to_le_bytes() {
            return None;
        }
        let (part, level) = (cid[12], cid[13]);
        let n = u64::from_le_bytes(cid[14..22].try_into().unwrap());
        let tail = if self.long { "n".repeat(50) } else { String::new() };
        let kid = |i: u64| n.wrapping_mul(self.fan).wrapping_add(i + 1);
        let mut m = Msg::default();
        let mut links = Vec::new();
        if part == Part::File as u8 {
            m.ty = Some(pbo::FILE);
            m.filesize = Some(self.total(level));
            if level == 0 {
                m.data = Some((n as u32).to_le_bytes().to_vec());
            } else {
                for i in 0..self.fan {
                    links.push(Link::new(&self.cid(Part::File, level - 1, kid(i)), "", 1));
                    m.blocksizes.push(self.total(level - 1));
                }
            }
        } else if part == Part::Link as u8 {
            m.ty = Some(pbo::SYMLINK);
            m.data = Some(n.to_le_bytes().to_vec());
        } else {
            let shard = part != Part::Dir as u8;
            m.ty = Some(if shard { pbo::HAMT } else { pbo::DIR });
            if shard {
                m.data = Some(vec![0xff; 32]);
                m.hash_type = Some(0x22);
                m.fanout = Some(256);
            }
            for i in 0..self.fan {
                let last = i + 1 == self.fan;
                // deeper on the left, and nothing below the last level
                let h = crate::util::mix(kid(i) ^ self.salt);
                let what = if part == Part::Only as u8 {
                    Part::Only
                } else if level == 0 {
                    [Part::File, Part::Link][(h % 2) as usize]
                } else {
                    [Part::Dir, Part::Shard, Part::Bucket, Part::File, Part::Link][(h % 5) as usize]
                };
                let what = if let (Part::Bucket, false) = (what, shard) { Part::Shard } else { what };
                let what = match what {
                    // nothing but the last goes on
                    Part::Dir | Part::Shard | Part::Bucket if self.chain && !last => Part::Link,
                    // not into directories, or the paths get long
                    _ if self.chain && last && part != Part::Only as u8 => {
                        if shard {
                            Part::Bucket
                        } else {
                            Part::Shard
                        }
                    }
                    x => x,
                };
                let name = match what {
                    Part::Bucket | Part::Only => format!("{:02X}", i),
                    _ if shard => format!("{:02X}{:x}{}", i, kid(i), tail),
                    _ => format!("{:x}{}", kid(i), tail),
                };
                let below = match what {
                    Part::Only if self.chain => {
                        if last {
                            level
                        } else {
                            0
                        }
                    }
                    Part::Dir | Part::Shard | Part::Bucket if self.chain => level,
                    Part::File => (h % 3) as u8,
                    _ => level.saturating_sub(1),
                };
                if part == Part::Only as u8 && level == 0 {
                    break;
                }
                links.push(Link::new(&self.cid(what, below, kid(i)), &name, 1));
            }
        }
        Some(pbo::enc_block(&links, &m))
    }
}

const FIXED: u64 = 32 << 10;

struct Meter {
    base: i64,
    pending: u64,
    most: u64,
    steps: u64,
}

impl Meter {
    fn new() -> Meter {
        // the memory for blocks is not the crate's
        drop(lend(&[]));
        Meter {
            base: live(),
            pending: 0,
            most: 0,
            steps: 0,
        }
    }
    fn check(&mut self, what: &str, pending: usize, each: u64, fixed: u64) -> R {
        let now = (live() - self.base).max(0) as u64;
        self.pending = self.pending.max(pending as u64);
        self.most = self.most.max(now);
        self.steps += 1;
        let bound = fixed + each * self.pending;
        ensure!(
            now <= bound,
            "{}: {} bytes are retained after {} steps, with at most {} links pending at any time",
            what,
            now,
            self.steps,
            self.pending
        );
        Ok(())
    }
    /// After everything was dropped.
    fn over(&self, what: &str) -> R {
        let now = live() - self.base;
        ensure!(
            now <= FIXED as i64,
            "{}: {} bytes are still in use after its end ({} steps)",
            what,
            now,
            self.steps
        );
        Ok(())
    }
    fn note(&self, c: &mut Case) {
        c.add("steps measured", self.steps);
        c.max("most links pending", self.pending);
        c.max("most bytes retained", self.most);
    }
}

fn some_steps(c: &Case, rng: &mut Rng) -> u64 {
    if c.thorough() && rng.one_in(10) {
        rng.range(5_000, 60_000)
    } else {
        rng.range(2_000, 8_000)
    }
}

fn x05(c: &mut Case) -> R {
    let mut rng = c.rng.clone();
    let rng = &mut rng;
    match c.idx % 8 {
        0 | 1 => long_visit(c, rng),
        2 | 3 | 4 => long_walk(c, rng),
        5 => long_lookup(c, rng),
        6 => long_import(c, rng),
        _ => churn(c, rng),
    }
}

fn long_visit(c: &mut Case, rng: &mut Rng) -> R {
    let (store, root, total) = if rng.bool() {
        let m = Made::random(rng);
        let l = m.levels;
        let (root, total) = (m.cid(Part::File, l, 0), m.total(l));
        (Blocks::Made(m), root, total)
    } else {
        let mut store = Store::default();
        let ink = Ink::random(rng);
        let s = Sparse::random(rng, &ink, &mut store);
        (Blocks::Stored(store), s.root().cid.clone(), s.root().total)
    };
    let range = if rng.bool() {
        let a = rng.below(total);
        Some(a..a + rng.below(total - a) + 1)
    } else {
        None
    };
    let want = some_steps(c, rng);
    c.describe(|| format!("visit {} bytes, range {:?}, up to {} steps", total, range, want));
    let mut cache = None;
    let mut m = Meter::new();
    {
        let idle = match range {
            Some(r) => IdleFileVisit::default().with_target_range(r),
            None => IdleFileVisit::default(),
        };
        let mut at = idle
            .start(&store.get(&root)?)
            .map_err(|e| Fail(format!("the visit does not start: {}", e)))?
            .3;
        let mut n = 0;
        while let Some(v) = at {
            let pending = 1 + v.pending_links().1.count();
            m.check("visit", pending, 512, FIXED)?;
            n += 1;
            if n > want {
                break;
            }
            let next = v.pending_links().0.to_bytes();
            at = v
                .continue_walk(&store.get(&next)?, &mut cache)
                .map_err(|e| Fail(format!("the visit fails: {}", e)))?
                .1;
        }
    }
    drop(cache);
    m.over("visit")?;
    m.note(c);
    if m.steps > 0 {
        c.add("visits", 1);
        c.counts(fp2(m.steps, fp2(total, crate::util::fp(&root))));
    }
    Ok(())
}

/// Layers of directories, shards and files, each made of those below.
fn sparse_tree(rng: &mut Rng, store: &mut Store, shards_only: bool) -> Vec<u8> {
    let style = 0;
    let mut below: Vec<(Vec<u8>, bool)> = Vec::new();
    if !shards_only {
        let leaf = pbo::enc_block(
            &[],
            &Msg {
                ty: Some(pbo::FILE),
                data: Some(rng.bytes(5)),
                filesize: Some(5),
                ..Default::default()
            },
        );
        let leaf = store.put(leaf, style);
        let n = rng.usize(2, 40);
        let big = pbo::enc_block(
            &vec![Link::new(&leaf, "", 20); n],
            &Msg {
                ty: Some(pbo::FILE),
                filesize: Some(5 * n as u64),
                blocksizes: vec![5; n],
                ..Default::default()
            },
        );
        let big = store.put(big, style);
        let link = store.put(
            pbo::enc_block(
                &[],
                &Msg {
                    ty: Some(pbo::SYMLINK),
                    data: Some(b"../target".to_vec()),
                    ..Default::default()
                },
            ),
            style,
        );
        below.extend([(leaf, false), (big, false), (link, false)]);
    }
    let sharded = |store: &mut Store, links: &[Link]| {
        store.put(
            pbo::enc_block(
                links,
                &Msg {
                    ty: Some(pbo::HAMT),
                    data: Some(vec![0xff; 32]),
                    hash_type: Some(0x22),
                    fanout: Some(256),
                    ..Default::default()
                },
            ),
            style,
        )
    };
    // (identifier, may be a bucket)
    let mut last = sharded(store, &[]);
    below.push((last.clone(), true));
    let long = rng.one_in(4);
    for layer in 0..rng.usize(10, 16) {
        let width = rng.usize(2, 5);
        let mut links = Vec::new();
        let shard = shards_only || rng.one_in(3);
        for i in 0..width {
            let (cid, bucket) = if i == 0 {
                (last.clone(), shards_only || below.last().unwrap().1)
            } else if shards_only {
                below[below.len() - 1 - rng.idx(below.len().min(2))].clone()
            } else {
                rng.pick(&below).clone()
            };
            let tail = if long { "n".repeat(60) } else { String::new() };
            let name = match (shard, bucket) {
                (true, true) if shards_only || rng.bool() => format!("{:02X}", i),
                (true, _) => format!("{:02X}{}-{}{}", i, layer, i, tail),
                _ => format!("{}-{}{}", layer, i, tail),
            };
            links.push(Link::new(&cid, &name, 100));
        }
        let last_is_shard = shard;
        last = if shard {
            sharded(store, &links)
        } else {
            store.put(pbo::enc_block(&links, &Msg::of(pbo::DIR)), style)
        };
        below.push((last.clone(), last_is_shard));
    }
    last
}

fn some_tree(rng: &mut Rng, shards_only: bool) -> (Blocks, Vec<u8>) {
    if rng.bool() {
        let m = Made::random(rng);
        let level = rng.range(3, 40) as u8;
        let part = if shards_only { Part::Only } else { *rng.pick(&[Part::Dir, Part::Shard]) };
        let root = m.cid(part, level, 0);
        return (Blocks::Made(m), root);
    }
    let mut store = Store::default();
    let root = sparse_tree(rng, &mut store, shards_only);
    (Blocks::Stored(store), root)
}

fn long_walk(c: &mut Case, rng: &mut Rng) -> R {
    let (store, root) = some_tree(rng, false);
    let want = some_steps(c, rng);
    c.describe(|| format!("walk {}, up to {} steps", crate::util::hex(&root), want));
    let mut cache = None;
    let mut m = Meter::new();
    {
        let mut w = Walker::new(cid_from(&root), String::new());
        let mut longest = 0;
        let mut n = 0;
        while w.should_continue() && n < want {
            n += 1;
            let next = w.pending_links().0.to_bytes();
            {
                let block = store.get(&next)?;
                let item = w
                    .next(&block, &mut cache)
                    .map_err(|e| Fail(format!("the walk fails: {}", e)))?;
                use unixfs_v1::walk::ContinuedWalk::*;
                let path = match &item {
                    Bucket(_, p) | Directory(_, p, _) | RootDirectory(_, p, _) | Symlink(_, _, p, _) => p,
                    File(_, _, p, _, _) => p,
                };
                longest = longest.max(path.as_os_str().len() as u64);
            }
            let pending = if w.should_continue() {
                1 + w.pending_links().1.count()
            } else {
                0
            };
            m.check("walk", pending + 1, 1024 + 4 * longest, FIXED)?;
        }
    }
    drop(cache);
    m.over("walk")?;
    m.note(c);
    c.add("walks", 1);
    c.counts(fp2(m.steps, crate::util::fp(&root)));
    Ok(())
}

fn long_lookup(c: &mut Case, rng: &mut Rng) -> R {
    let (store, root) = some_tree(rng, true);
    let want = some_steps(c, rng);
    c.describe(|| format!("lookup in {}, up to {} steps", crate::util::hex(&root), want));
    let mut cache = None;
    let mut m = Meter::new();
    {
        let fails = |e: String| Fail(format!("the lookup fails: {}", e));
        let mut at = unixfs_v1::resolve(&store.get(&root)?, "is not there", &mut cache)
            .map_err(|e| fails(e.to_string()))?;
        let mut n = 0;
        loop {
            let l = match at {
                MaybeResolved::NeedToLoadMore(l) if n < want => l,
                MaybeResolved::Found(_) => return Err(Fail("finds what is not there".into())),
                _ => break,
            };
            n += 1;
            if n % 8 == 0 || n < 100 {
                m.check("lookup", 1 + l.pending_links().1.count(), 512, FIXED)?;
            }
            let next = l.pending_links().0.to_bytes();
            at = l
                .continue_walk(&store.get(&next)?, &mut cache)
                .map_err(|e| fails(e.to_string()))?;
        }
    }
    drop(cache);
    m.over("lookup")?;
    m.note(c);
    if m.steps > 0 {
        c.add("lookups", 1);
        c.counts(fp2(m.steps, crate::util::fp(&root)));
    }
    Ok(())
}

fn long_import(c: &mut Case, rng: &mut Rng) -> R {
    let chunk = *rng.pick(&[1usize, 3, 16, 64, 500]);
    let k = *rng.pick(&[174usize, 30, 400]);
    let chunks = rng.usize(5_000, if c.thorough() { 100_000 } else { 30_000 }).min(4_000_000 / chunk);
    let piece = rng.usize(1, 3 * chunk);
    let n = (chunks * chunk) as u64;
    let fixed = 2 * chunk as u64 + FIXED;
    c.describe(|| format!("import {} chunks of {}, {} links, pieces of {}", chunks, chunk, k, piece));
    let buf: Vec<u8> = rng.bytes(piece);
    let mut m = Meter::new();
    {
        let mut a = FileAdder::builder()
            .with_chunker(Chunker::Size(chunk))
            .with_collector(BalancedCollector::with_branching_factor(k))
            .build();
        let mut at = 0u64;
        // emitted, less those linked
        let mut unlinked = 0i64;
        while at < n {
            let (blocks, used) = a.push(&buf);
            for (_, b) in blocks {
                // 34 bytes of identifier in every link
                unlinked += 1;
                if let Ok((node, _)) = pbo::dec_node(&b) {
                    unlinked -= node.links.len() as i64;
                }
            }
            ensure!(used > 0, "a push consumed nothing");
            at += used as u64;
            m.check("import", unlinked.max(0) as usize, 512, fixed)?;
        }
        // and all of the blocks which are left
        let (mut left, mut bytes) = (0u64, 0u64);
        for (_, b) in a.finish() {
            left += 1;
            bytes += b.len() as u64;
        }
        c.add("blocks left for the end", left);
        c.max("most bytes in the blocks left for the end", bytes);
    }
    m.over("import")?;
    m.note(c);
    c.add("imports", 1);
    c.counts(fp2(fp2(chunk as u64, k as u64), fp2(n, piece as u64)));
    Ok(())
}

/// Many short operations on different things: nothing of them stays.
fn churn(c: &mut Case, rng: &mut Rng) -> R {
    let salt = rng.next();
    let mut base = 0;
    let rounds = 2000u64;
    let mut most = 0;
    // of one kind, or all of them
    let only = if rng.bool() { Some(rng.below(KINDS)) } else { None };
    for i in 0..rounds {
        if i == 100 {
            base = live();
        }
        tiny(fp2(salt, i), only)?;
        if i >= 100 {
            let now = live() - base;
            most = most.max(now);
            ensure!(
                now <= 32 << 10,
                "{} bytes are in use which were not before the last {} short operations",
                now,
                i - 99
            );
        }
    }
    c.add("short operations", rounds);
    c.max("most bytes left by short operations", most.max(0) as u64);
    c.distinct("kinds of short operations", only.unwrap_or(KINDS));
    c.describe(|| format!("{} short operations of kind {:?} from {:x}", rounds, only, salt));
    c.counts(fp2(salt, only.unwrap_or(KINDS)));
    Ok(())
}

const KINDS: u64 = 8;

/// A short operation, with names, contents and identifiers no other one has.
fn tiny(seed: u64, only: Option<u64>) -> R {
    let rng = &mut Rng::new(seed);
    let fails = |e: String| Fail(format!("a short operation fails: {}", e));
    let meta = Meta::random(rng);
    let fresh = |rng: &mut Rng| {
        let n = rng.usize(20, 120);
        format!("{:016x}{}", rng.next(), "n".repeat(n))
    };
    let file = |content: &[u8]| {
        pbo::enc_block(
            &[],
            &Msg {
                ty: Some(pbo::FILE),
                data: Some(content.to_vec()),
                filesize: Some(content.len() as u64),
                ..Default::default()
            },
        )
    };
    let kind = only.unwrap_or_else(|| rng.below(KINDS));
    match kind {
        0 => {
            let chunk = rng.usize(1, 8);
            let mut a = FileAdder::builder()
                .with_chunker(Chunker::Size(chunk))
                .with_collector(BalancedCollector::with_branching_factor(2 + rng.usize(0, 3)))
                .build();
            let content = rng.bytes(chunk * 5);
            let mut at = 0;
            while at < content.len() {
                let n = rng.usize(1, 10).min(content.len() - at);
                at += a.push(&content[at..at + n]).1;
            }
            // sometimes given up
            if rng.bool() {
                a.finish().for_each(drop);
            }
        }
        1 => {
            let mut o = TreeOptions::default();
            o.wrap_with_directory();
            if rng.one_in(4) {
                o.block_size_limit(Some(100));
            }
            let mut b = BufferingTreeBuilder::new(o);
            let dirs = [fresh(rng), fresh(rng)];
            for _ in 0..4 {
                let p = format!("{}/{}/{}", rng.pick(&dirs), rng.pick(&dirs), fresh(rng));
                let cid = cid_from(&cid_of(p.as_bytes()));
                b.put_link(&p, cid, 1).map_err(|e| fails(e.to_string()))?;
                // refused
                let _ = b.put_link(&format!("{}/{}", p, fresh(rng)), cid, 1);
                let _ = b.put_link(&format!("/{}", p), cid, 1);
            }
            // given up, or iterated to some point
            let n = rng.usize(0, 9);
            for x in b.build().take(n) {
                let _ = x;
            }
        }
        2 => {
            // a file, given up or read to its end, or with a broken block
            let leaf = file(&rng.bytes(3));
            let mut m = Msg {
                ty: Some(pbo::FILE),
                filesize: Some(6),
                blocksizes: vec![3, 3],
                ..Default::default()
            };
            meta.into_msg(&mut m);
            let root = pbo::enc_block(&vec![Link::new(&cid_of(&leaf), "", 9); 2], &m);
            let mut cache = None;
            let (_, _, _, mut v) = IdleFileVisit::default()
                .start(&lend(&root))
                .map_err(|e| fails(e.to_string()))?;
            for _ in 0..rng.usize(0, 3) {
                v = match v {
                    Some(v) if rng.one_in(4) => v.continue_walk(&lend(&leaf[1..]), &mut cache).map(|x| x.1).unwrap_or(None),
                    Some(v) => v.continue_walk(&lend(&leaf), &mut cache).map_err(|e| fails(e.to_string()))?.1,
                    None => break,
                };
            }
        }
        3 => {
            let name = fresh(rng);
            let target = cid_of(name.as_bytes());
            let mut m = Msg::of(pbo::DIR);
            meta.into_msg(&mut m);
            let b = pbo::enc_block(&[Link::new(&target, &name, 1)], &m);
            match unixfs_v1::resolve(&lend(&b), &name, &mut None) {
                Ok(MaybeResolved::Found(c)) if c.to_bytes() == target => {}
                x => return Err(Fail(format!("{:?} is not found: {:?}", name, x))),
            }
            let _ = unixfs_v1::resolve(&lend(&b), &fresh(rng), &mut None);
        }
        4 => {
            // a walk to its end, given up, or failing
            let name = fresh(rng);
            let leaf = file(name.as_bytes());
            let mut m = Msg::of(pbo::DIR);
            meta.into_msg(&mut m);
            let hash = cid_of(&leaf);
            let root = pbo::enc_block(&[Link::new(&hash, &name, 1), Link::new(&hash, &fresh(rng), 1)], &m);
            let mut w = Walker::new(cid_from(&cid_of(&root)), fresh(rng));
            let mut cache = None;
            let _ = w.next(&lend(&root), &mut cache).map_err(|e| fails(e.to_string()))?;
            for _ in 0..rng.usize(0, 2) {
                if rng.one_in(4) {
                    let _ = w.next(&lend(name.as_bytes()), &mut cache);
                    break;
                }
                let _ = w.next(&lend(&leaf), &mut cache).map_err(|e| fails(e.to_string()))?;
            }
        }
        5 => {
            // a sharded lookup
            let name = fresh(rng);
            let hash = cid_of(name.as_bytes());
            let hamt = |l: &[Link]| {
                pbo::enc_block(
                    l,
                    &Msg {
                        ty: Some(pbo::HAMT),
                        data: Some(vec![0xff; 32]),
                        hash_type: Some(0x22),
                        fanout: Some(256),
                        ..Default::default()
                    },
                )
            };
            let bucket = hamt(&[Link::new(&hash, &format!("00{}", name), 1)]);
            let root = hamt(&[
                Link::new(&cid_of(&bucket), "0A", 1),
                Link::new(&hash, &format!("0B{}", fresh(rng)), 1),
            ]);
            let mut cache = None;
            let needle = if rng.bool() { name.clone() } else { fresh(rng) };
            let mut at = unixfs_v1::resolve(&lend(&root), &needle, &mut cache).map_err(|e| fails(e.to_string()))?;
            if let MaybeResolved::NeedToLoadMore(l) = at {
                let l = if rng.bool() { l.with_owned_needle() } else { l };
                at = match rng.below(3) {
                    0 => MaybeResolved::NotFound,
                    1 => l
                        .continue_walk(&lend(&bucket), &mut cache)
                        .map_err(|e| fails(e.to_string()))?,
                    _ => l
                        .continue_walk(&lend(name.as_bytes()), &mut cache)
                        .unwrap_or(MaybeResolved::NotFound),
                };
            }
            drop(at);
        }
        6 => {
            // codec and symlinks
            let target = fresh(rng);
            let mut out = Vec::new();
            unixfs_v1::symlink::serialize_symlink_block(&target, &mut out);
            let w = unixfs_v1::dagpb::wrap_node_data(out).map_err(|e| fails(e.to_string()))?;
            let _ = format!("{:?} {}", w, w.node_data().len());
            let out = w.into_inner();
            let f = unixfs_v1::FlatUnixFs::try_from(&out[..]).map_err(|e| fails(format!("{:?}", e)))?;
            let _ = unixfs_v1::Metadata::from(&f.data);
        }
        _ => {
            // all of them fail, and the failures are shown
            let n = rng.usize(1, 30);
            let junk = rng.bytes(n);
            let show = |e: &dyn std::error::Error| format!("{} {:?}", e, e).len();
            if let Err(e) = IdleFileVisit::default().start(&lend(&junk)) {
                show(&e);
            }
            if let Err(e) = unixfs_v1::resolve(&lend(&junk), "x", &mut None) {
                show(&e);
            }
            let name = fresh(rng);
            let no_hash = [0x02, n as u8];
            let links = [Link::new(&no_hash, &name, 1), Link::new(&no_hash, &name, 1)];
            let broken = pbo::enc_block(&links, &Msg::of(pbo::DIR));
            let mut w = Walker::new(cid_from(&cid_of(&broken)), fresh(rng));
            if let Err(e) = w.next(&lend(&broken), &mut None) {
                show(&e);
            }
            if let Err(e) = unixfs_v1::resolve(&lend(&broken), &name, &mut None) {
                show(&e);
            }
            let bad = pbo::enc_block(
                &links,
                &Msg {
                    ty: Some(pbo::FILE),
                    filesize: Some(2),
                    blocksizes: vec![1, 1],
                    ..Default::default()
                },
            );
            if let Err(e) = IdleFileVisit::default().start(&lend(&bad)) {
                show(&e);
            }
            let mut odd = Msg::of(pbo::DIR);
            odd.blocksizes = vec![rng.next(); 50];
            if let Err(e) = unixfs_v1::resolve(&lend(&pbo::enc_block(&[], &odd)), &name, &mut None) {
                show(&e);
            }
        }
    }
    Ok(())
}
