//! X01-X03: blocks nobody should have to trust, caches and interleaving, broken links.

use super::codec::{mutate, random_msg, some_block, soup};
use super::{Prop, EXPLORED, ORACLE};
use crate::drive::{self, cid_from, inside, lookup, observe, visit, walk, BadLink, Found, LookupRun, VLog, VisitRun, WLog, WalkRun};
use crate::model::{self, lay_file, lay_file_with, lay_tree, Ink, Meta, Shape, Shard, Slot, Store, Tree, TreeGen};
use crate::pbo::{self, Link, Msg};
use crate::util::{cid_of, fp, fp2, hex, hexs, Rng};
use crate::{allocated, ensure, Case, Fail, R};
use std::convert::TryFrom;
use std::error::Error;
use std::ops::Range;
use unixfs_v1::dagpb::{node_data, wrap_node_data};
use unixfs_v1::dir::{self, MaybeResolved};
use unixfs_v1::file::visit::{self, IdleFileVisit};
use unixfs_v1::walk::Walker;
use unixfs_v1::{resolve, FlatUnixFs, PBNode, ResolveError, UnixFs};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "X01",
        title: "No input block can crash or hang the library",
        run: x01,
        quick: 150000,
        rule: "visits, ranged visits, walks, lookups and parsers are given at every step the requested block, a mutated one, a block of another tree, a crafted inconsistent one, field soup or random bytes; also cyclic and very deep trees and blocks with thousands of links; panics, overflows, signals, processor time and allocated bytes are watched; counted when at least one unexpected block was supplied",
        assumptions: &[EXPLORED, "Work is watched as bytes requested from the allocator (at most 1024 for each byte supplied so far in the operation, plus 1 MiB) and as processor time of a case (25 s); an operation that is a constant factor slower is not noticed.", "Continuing a walk after an error is outside of the contract of the walker."],
    },
    Prop {
        id: "X02",
        title: "Reused caches and interleaved walks never change results",
        run: x02,
        quick: 25000,
        rule: "two to five visits, ranged visits, walks and lookups over intact and damaged trees are run alone, twice, then in random interleavings sharing caches that completed, failed and abandoned operations left behind; the complete logs of every step are compared; counted when a cache or a schedule was actually shared",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "X03",
        title: "Broken links are reported with their position, name and hash",
        run: x03,
        quick: 80000,
        rule: "well-formed files, directories and shards in which the hash of one or more links is missing, empty, truncated or garbage, at every position and depth, visited in full and in part, walked and resolved; counted when a broken link was needed or had to be ignored",
        assumptions: &[ORACLE, EXPLORED, "Whether a broken child that only touches the target range, or a broken bucket next to a pending bucket which holds the name, makes the operation fail is not decided."],
    },
];

// ---- X01 ---------------------------------------------------------------------------------------

/// Everything an error can be asked for.
fn show_error(e: &(dyn Error + 'static)) -> usize {
    let mut n = format!("{:?}", e).len() + format!("{}", e).len() + format!("{:#?}", e).len();
    let mut s = e.source();
    while let Some(e) = s {
        n += format!("{:?} {}", e, e).len();
        s = e.source();
    }
    n
}

/// Blocks to be supplied, whatever was asked for.
struct Feed {
    store: Store,
    pool: Vec<Vec<u8>>,
    cids: Vec<Vec<u8>>,
    /// Once in how many steps something else than the requested block comes.
    off: u64,
    unexpected: u64,
    bytes: u64,
    base: u64,
}

impl Feed {
    fn next(&mut self, rng: &mut Rng, wanted: &[u8]) -> Vec<u8> {
        let honest = self.store.get(wanted).map(|b| b.to_vec());
        let b = match honest {
            Some(b) if !rng.one_in(self.off) => b,
            honest => {
                self.unexpected += 1;
                self.bad(rng, honest)
            }
        };
        self.bytes += b.len() as u64;
        b
    }

    fn bad(&mut self, rng: &mut Rng, honest: Option<Vec<u8>>) -> Vec<u8> {
        match rng.below(13) {
            12 => {
                let b = honest.unwrap_or_else(|| rng.pick(&self.pool).clone());
                trap(rng, b)
            }
            0 => Vec::new(),
            1 => {
                let n = rng.idx(40);
                rng.bytes(n)
            }
            2 => soup(rng, 0),
            3 => some_block(rng),
            4 | 5 => rng.pick(&self.pool).clone(),
            6 | 7 => crafted(rng, &self.cids),
            8 => {
                let mut b = crafted(rng, &self.cids);
                let o = rng.pick(&self.pool).clone();
                mutate(rng, &mut b, &o);
                b
            }
            _ => {
                let mut b = honest.unwrap_or_else(|| rng.pick(&self.pool).clone());
                let o = rng.pick(&self.pool).clone();
                mutate(rng, &mut b, &o);
                b
            }
        }
    }

    /// To be asked after every single operation.
    fn within_bounds(&self, what: &str) -> R {
        let used = allocated() - self.base;
        let bound = 1024 * (self.bytes + 64) + (1 << 20);
        ensure!(
            used <= bound,
            "{} requested {} bytes of memory for {} bytes of blocks",
            what,
            used,
            self.bytes
        );
        Ok(())
    }
}

/// A field which claims a length next to where positions overflow, in the node, its message or a link.
fn trap(rng: &mut Rng, b: Vec<u8>) -> Vec<u8> {
    let mut t = Vec::new();
    let field = if rng.bool() { rng.range(1, 9) } else { rng.range(10, 2000) };
    pbo::varint(&mut t, field << 3 | *rng.pick(&[2, 2, 2, 2, 0, 1, 5, 3, 4, 6, 7]));
    let len = match rng.below(6) {
        0 => rng.wide(),
        1 => u64::MAX - rng.below(200),
        2 => (1 << 63) - rng.below(3),
        3 => (1 << 32) - rng.below(200),
        4 => (1 << 31) - rng.below(3),
        _ => (b.len() as u64).wrapping_add(rng.below(5)).wrapping_sub(2),
    };
    pbo::varint(&mut t, len);
    let n = rng.idx(4);
    t.extend(rng.bytes(n));
    let at_end = rng.bool();
    let glue = |old: &[u8]| if at_end { [old, &t[..]].concat() } else { [&t[..], old].concat() };
    let (node, _) = match pbo::dec_node(&b) {
        Ok(n) => n,
        Err(_) => return glue(&b),
    };
    let mut out = Vec::new();
    match rng.below(3) {
        0 => return glue(&b),
        1 => {
            let d = glue(&node.data.unwrap_or_default());
            for l in &node.links {
                let l = pbo::enc_link(l);
                pbo::varint(&mut out, 18);
                pbo::varint(&mut out, l.len() as u64);
                out.extend(l);
            }
            pbo::varint(&mut out, 10);
            pbo::varint(&mut out, d.len() as u64);
            out.extend(d);
        }
        _ => {
            let l = glue(&node.links.first().map(pbo::enc_link).unwrap_or_default());
            pbo::varint(&mut out, 18);
            pbo::varint(&mut out, l.len() as u64);
            out.extend(l);
            out.extend(b);
        }
    }
    out
}

fn near(rng: &mut Rng, x: u64) -> u64 {
    match rng.below(8) {
        0 => rng.wide(),
        1 => u64::MAX - rng.below(3),
        2 => x.wrapping_add(rng.below(3)),
        3 => x.wrapping_sub(rng.below(3)),
        4 => 0,
        _ => x,
    }
}

/// A block which is well-formed by itself, with names, sizes, links and properties that do not fit
/// together.
fn crafted(rng: &mut Rng, cids: &[Vec<u8>]) -> Vec<u8> {
    let mut m = if rng.bool() {
        random_msg(rng)
    } else {
        match rng.below(3) {
            0 => Msg::of(pbo::DIR),
            1 => Msg::hamt(),
            _ => Msg::of(*rng.pick(&[pbo::FILE, pbo::FILE, pbo::RAW])),
        }
    };
    let n = *rng.pick(&[0, 1, 1, 2, 2, 3, 5, 9]);
    let links: Vec<Link> = (0..n)
        .map(|_| {
            let hash = match rng.below(10) {
                0 => None,
                1 => Some(Vec::new()),
                2 => {
                    let k = rng.idx(40);
                    Some(rng.bytes(k))
                }
                3 => {
                    let mut h = rng.pick(cids).clone();
                    let i = rng.idx(h.len());
                    h[i] ^= 1 << rng.below(8);
                    Some(h)
                }
                _ => Some(rng.pick(cids).clone()),
            };
            let name = match rng.below(12) {
                0 => None,
                1 => Some(String::new()),
                2 => Some(
                    rng.pick(&[
                        ".", "..", "/", "//", "a/", "/a", "a/b", "../x", "./a", "FA", "FAa", "F", "é", "0é", "日本",
                        "FA/", "FA..", "FA.", "0/0", "\u{0}", "\u{0}\u{0}", "FAé", "aé",
                    ])
                    .to_string(),
                ),
                3 => {
                    let k = rng.usize(1, 600);
                    Some("x".repeat(k))
                }
                4 | 5 | 6 => Some(format!("{:02X}", rng.below(256))),
                _ => {
                    let n = model::name(rng);
                    Some(if rng.bool() { n } else { format!("{:02X}{}", rng.below(256), n) })
                }
            };
            Link {
                hash,
                name,
                tsize: if rng.bool() { Some(rng.wide()) } else { None },
            }
        })
        .collect();
    if matches!(m.ty, Some(pbo::FILE) | Some(pbo::RAW)) && rng.one_in(3) {
        // sizes next to where they overflow
        m.data = None;
        m.hash_type = None;
        m.fanout = None;
        m.blocksizes = links.iter().map(|_| rng.below(5)).collect();
        let sum: u64 = m.blocksizes.iter().sum();
        m.filesize = Some(near(rng, sum));
        if !m.blocksizes.is_empty() && rng.bool() {
            let i = rng.idx(m.blocksizes.len());
            m.blocksizes[i] = near(rng, m.blocksizes[i]);
            if rng.bool() {
                m.filesize = Some(near(rng, m.blocksizes.iter().fold(0, |a: u64, b| a.wrapping_add(*b))));
            }
        }
    }
    if rng.one_in(20) {
        m.ty = Some(rng.wide());
    }
    if rng.one_in(30) {
        m.ty = None;
    }
    if rng.bool() {
        pbo::enc_block(&links, &m)
    } else {
        pbo::enc_block_odd(rng, &links, &m)
    }
}

/// Files with the sizes of some blocks changed, still linked.
fn skewed_file(rng: &mut Rng, store: &mut Store) -> Vec<u8> {
    let dag = model::random_dag(rng, false);
    let mut fork = Rng::new(rng.next());
    let rate = *rng.pick(&[2, 4, 10, 30]);
    let ink = Ink::random(rng);
    let meta = Meta::sparse(rng);
    lay_file_with(rng, &ink, store, &dag, &meta, &mut |_, links, m| {
        if fork.one_in(rate) {
            m.filesize = Some(near(&mut fork, m.filesize.unwrap_or(0)));
        }
        for b in m.blocksizes.iter_mut() {
            if fork.one_in(rate * 2) {
                *b = near(&mut fork, *b);
            }
        }
        if fork.one_in(rate * 2) {
            links.pop();
            if fork.bool() {
                m.blocksizes.pop();
            }
        }
        if fork.one_in(rate * 4) {
            m.data = Some(fork.bytes(7));
        }
        if fork.one_in(rate * 6) {
            m.filesize = None;
        }
        if fork.one_in(rate * 6) {
            m.ty = Some(fork.below(7));
        }
        None
    })
    .root()
    .to_vec()
}

/// Blocks that link to themselves or to blocks above: no hash makes them, but a block store which does
/// not check them may hand them out.
fn cyclic(rng: &mut Rng, store: &mut Store) -> Vec<u8> {
    let names: Vec<Vec<u8>> = (0..rng.usize(1, 4)).map(|i| cid_of(&[i as u8])).collect();
    let kind = *rng.pick(&[pbo::DIR, pbo::HAMT, pbo::FILE]);
    for n in &names {
        let mut m = if kind == pbo::HAMT { Msg::hamt() } else { Msg::of(kind) };
        let links: Vec<Link> = (0..rng.usize(1, 3))
            .map(|i| {
                let name = if kind == pbo::HAMT && rng.bool() {
                    format!("{:02X}", i)
                } else {
                    format!("{:02X}{}", i, i)
                };
                Link::new(rng.pick(&names), &name, 1)
            })
            .collect();
        if kind == pbo::FILE {
            // the only sizes that fit into themselves
            let s = rng.below(2);
            m.blocksizes = links.iter().map(|_| 0).collect();
            m.blocksizes[0] = s;
            m.filesize = Some(s);
        }
        store.map.insert(n.clone(), pbo::enc_block(&links, &m));
    }
    rng.pick(&names).clone()
}

/// Thousands of blocks below one another.
fn deep(rng: &mut Rng, store: &mut Store, n: usize) -> Vec<u8> {
    let kind = rng.below(4);
    let leaf = match kind {
        0 => pbo::enc_block(
            &[],
            &Msg {
                data: Some(b"x".to_vec()),
                filesize: Some(1),
                ..Msg::of(pbo::FILE)
            },
        ),
        1 | 3 => pbo::enc_block(&[], &Msg::of(pbo::DIR)),
        _ => pbo::enc_block(&[], &Msg::hamt()),
    };
    let mut cid = store.put(leaf, 0);
    for i in 0..n {
        let (name, m) = match kind {
            0 => (
                "",
                Msg {
                    filesize: Some(1),
                    blocksizes: vec![1],
                    ..Msg::of(pbo::FILE)
                },
            ),
            1 => ("a", Msg::of(pbo::DIR)),
            2 => ("00", Msg::hamt()),
            _ => {
                // one after the other
                if i % 2 == 0 {
                    ("00b", Msg::hamt())
                } else {
                    ("b", Msg::of(pbo::DIR))
                }
            }
        };
        cid = store.put(pbo::enc_block(&[Link::new(&cid, name, 1)], &m), 0);
    }
    cid
}

/// One block with a great many links.
fn wide(rng: &mut Rng, store: &mut Store) -> Vec<u8> {
    let n = rng.usize(300, 3000);
    let leaf = store.put(
        pbo::enc_block(
            &[],
            &Msg {
                data: Some(b"x".to_vec()),
                filesize: Some(1),
                ..Msg::of(pbo::RAW)
            },
        ),
        0,
    );
    let kind = *rng.pick(&[pbo::DIR, pbo::HAMT, pbo::FILE]);
    let mut m = if kind == pbo::HAMT { Msg::hamt() } else { Msg::of(kind) };
    let same = rng.bool();
    let links: Vec<Link> = (0..n)
        .map(|i| {
            let i = if same { 0 } else { i };
            let name = match kind {
                pbo::FILE => String::new(),
                pbo::DIR => format!("{}", i),
                _ => format!("{:02X}{}", i % 256, if same { String::new() } else { i.to_string() }),
            };
            Link::new(&leaf, &name, 1)
        })
        .collect();
    if kind == pbo::FILE {
        m.filesize = Some(n as u64);
        m.blocksizes = vec![1; n];
    }
    store.put(pbo::enc_block(&links, &m), 0)
}

fn any_range(rng: &mut Rng) -> Range<u64> {
    let at = |rng: &mut Rng| match rng.below(4) {
        0 => rng.wide(),
        1 => u64::MAX - rng.below(4),
        _ => rng.below(60),
    };
    let a = at(rng);
    let b = if rng.bool() { a.saturating_add(rng.below(30)) } else { at(rng) };
    a..b
}

/// A parsed field might be a copy, but of nothing else than a part of the block.
fn part_of(block: &[u8], part: &[u8]) -> R {
    if inside(block, part).is_ok() || block.windows(part.len()).any(|w| w == part) {
        return Ok(());
    }
    Err(Fail(format!("a parsed field holds {}, which is not in the block {}", hexs(part), hexs(block))))
}

fn parse_all(c: &mut Case, b: &[u8]) -> R {
    match FlatUnixFs::try_parse(b) {
        Ok(f) => {
            let _ = format!("{:?} {:?}", f, f.data);
            if let Some(d) = f.data.Data.as_deref() {
                part_of(b, d)?;
            }
            for l in &f.links {
                part_of(b, l.Hash.as_deref().unwrap_or_default())?;
                part_of(b, l.Name.as_deref().unwrap_or_default().as_bytes())?;
            }
            c.add("blocks parsed", 1);
        }
        Err(e) => {
            let _ = format!("{:?} {}", e, e);
            c.add("blocks refused", 1);
        }
    }
    let _ = FlatUnixFs::try_from(b).map(|f| f.links.len());
    match PBNode::try_from(b) {
        Ok(n) => {
            let _ = format!("{:?}", n);
            if let Ok(u) = UnixFs::try_from(&n) {
                let m = unixfs_v1::Metadata::from(&u);
                let _ = format!("{:?} {:?}", u, m);
                                let _ = m.mtime_as_filetime();
            }
            let _ = UnixFs::try_from(n.Data.as_deref()).map(|u| format!("{:?}", u));
        }
        Err(e) => {
            show_error(&e);
        }
    }
    let _ = UnixFs::try_from(Some(b)).map(|u| format!("{:?}", u));
    match node_data(b) {
        Ok(Some(d)) => inside(b, d)?,
        Ok(None) => {}
        Err(e) => {
            show_error(&e);
        }
    }
    if let Ok(w) = wrap_node_data(b) {
        let _ = format!("{:?}", w);
        inside(b, w.node_data())?;
        let _ = w == b;
    }
    Ok(())
}

const STEPS: usize = 120;

fn hostile_visit(c: &mut Case, rng: &mut Rng, feed: &mut Feed, root: &[u8], steps: usize) -> R {
    let mut idle = IdleFileVisit::default();
    if rng.one_in(2) {
        let r = any_range(rng);
        c.describe(|| format!("visiting {:?}", r));
        idle = idle.with_target_range(r);
    }
    let _ = format!("{:?}", idle);
    let mut cache: Option<visit::Cache> = None;
    let first = feed.next(rng, root);
    let mut v = match idle.start(&first) {
        Ok((bytes, _, m, v)) => {
            inside(&first, bytes)?;
            let _ = format!("{:?}", m);
            v
        }
        Err(e) => {
            show_error(&e);
            c.add("errors of visits", 1);
            c.distinct("errors seen", fp(crate::drive::variant(&format!("{:?}", e)).as_bytes()));
            None
        }
    };
    feed.within_bounds("starting a visit")?;
    c.add("steps of visits", 1);
    let mut n = 0;
    while let Some(now) = v.take() {
        let _ = (now.file_size(), now.as_ref().mode());
        if n < 3 {
            let _ = format!("{:?}", now);
        }
        let want = now.pending_links().0.to_bytes();
        if n < 50 {
            let _ = now.pending_links().1.count();
        }
        if n >= steps {
            break;
        }
        n += 1;
        let b = feed.next(rng, &want);
        match now.continue_walk(&b, &mut cache) {
            Ok((bytes, next)) => {
                inside(&b, bytes)?;
                v = next;
            }
            Err(e) => {
                show_error(&e);
                c.add("errors of visits", 1);
                c.distinct("errors seen", fp(crate::drive::variant(&format!("{:?}", e)).as_bytes()));
            }
        }
        feed.within_bounds("continuing a visit")?;
        c.add("steps of visits", 1);
    }
    Ok(())
}

fn hostile_walk(c: &mut Case, rng: &mut Rng, feed: &mut Feed, root: &[u8], steps: usize) -> R {
    let name = model::root_name(rng);
    feed.bytes += name.len() as u64;
    let mut w = Walker::new(cid_from(root), name);
    let mut cache: Option<visit::Cache> = None;
    let mut n = 0;
    while w.should_continue() && n < steps {
        n += 1;
        if n < 3 {
            let _ = format!("{:?}", w);
        }
        let want = w.pending_links().0.to_bytes();
        if n < 50 {
            let _ = w.pending_links().1.count();
        }
        let b = feed.next(rng, &want);
        match w.next(&b, &mut cache) {
            Ok(item) => {
                // the path is made of names supplied earlier, and written down at every step
                let e = observe(&item, &b, &want)?;
                feed.bytes += e.path.as_os_str().len() as u64;
                if n < 50 {
                    let _ = format!("{:?}", item);
                }
                c.distinct("kinds of items", fp(crate::drive::variant(&format!("{:?}", item)).as_bytes()));
            }
            Err(e) => {
                show_error(&e);
                c.add("errors of walks", 1);
                c.distinct("errors seen", fp(crate::drive::variant(&format!("{:?}", e)).as_bytes()));
                feed.within_bounds("failing a walk")?;
                break;
            }
        }
        feed.within_bounds("continuing a walk")?;
        c.add("steps of walks", 1);
    }
    Ok(())
}

fn hostile_lookup(c: &mut Case, rng: &mut Rng, feed: &mut Feed, root: &[u8], steps: usize) -> R {
    let needle = match rng.below(4) {
        0 => rng.pick(&["", "a", "FA", "00", "é", "..", "/", "b", "0"]).to_string(),
        1 => "x".repeat(rng.usize(0, 600)),
        _ => model::name(rng),
    };
    let mut cache: Option<dir::Cache> = None;
    let first = feed.next(rng, root);
    c.add("steps of lookups", 1);
    let mut state = match resolve(&first, &needle, &mut cache) {
        Ok(MaybeResolved::NeedToLoadMore(l)) => Some(l),
        Ok(x) => {
            let _ = format!("{:?}", x);
            None
        }
        Err(e) => {
            show_error(&e);
            c.add("errors of lookups", 1);
            if let ResolveError::Lookup(e) = e {
                let _ = format!("{:?}", e.into_resolve_error());
            }
            None
        }
    };
    feed.within_bounds("resolving")?;
    let mut n = 0;
    while let Some(mut l) = state.take() {
        if n < 3 {
            let _ = format!("{:?}", l);
        }
        if rng.one_in(8) {
            l = l.with_owned_needle();
        }
        let want = l.pending_links().0.to_bytes();
        if n < 50 {
            let _ = l.pending_links().1.count();
        }
        if n >= steps {
            break;
        }
        n += 1;
        let b = feed.next(rng, &want);
        match l.continue_walk(&b, &mut cache) {
            Ok(MaybeResolved::NeedToLoadMore(l)) => state = Some(l),
            Ok(x) => {
                let _ = format!("{:?}", x);
            }
            Err(e) => {
                show_error(&e);
                c.add("errors of lookups", 1);
                c.distinct("errors seen", fp(crate::drive::variant(&format!("{:?}", e)).as_bytes()));
                let _ = show_error(&e.into_resolve_error());
            }
        }
        feed.within_bounds("continuing a lookup")?;
        c.add("steps of lookups", 1);
    }
    Ok(())
}

fn x01(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let mut store = Store::default();
    let ink = Ink::random(rng);
    let mut roots = Vec::new();
    let mut steps = STEPS;
    let mut off = *rng.pick(&[1, 3, 6, 20]);
    let special = rng.below(400);
    match special {
        0..=11 => {
            roots.push(cyclic(rng, &mut store));
            off = 1 << 40;
            c.add("cyclic trees", 1);
        }
        12 | 13 => {
            let n = if c.thorough() { rng.usize(1000, 20_000) } else { rng.usize(500, 1500) };
            steps = n + 10;
            roots.push(deep(rng, &mut store, n));
            off = 1 << 40;
            c.add("trees of hundreds of levels", 1);
            c.max("most levels of a tree", n as u64);
        }
        14 | 15 => {
            roots.push(wide(rng, &mut store));
            steps = 40;
            off = 1 << 40;
            c.add("blocks of hundreds of links", 1);
        }
        16..=150 => {
            roots.push(skewed_file(rng, &mut store));
            if rng.bool() {
                off = 1 << 40;
            }
        }
        151..=190 => {
            let dag = model::random_dag(rng, false);
            roots.push(lay_file(rng, &ink, &mut store, &dag, &Meta::default()).root().to_vec());
        }
        _ => {
            let mut g = TreeGen::random(rng);
            let t = if rng.bool() { g.hamt(rng, 3) } else { g.tree(rng, 3) };
            roots.push(lay_tree(rng, &ink, &mut store, &t, &Default::default(), true).cid);
        }
    }
    let root = roots[0].clone();
    let mut cids: Vec<Vec<u8>> = store.map.keys().cloned().collect();
    cids.sort();
    cids.truncate(24);
    if !cids.contains(&root) {
        cids.push(root.clone());
    }
    cids.push(cid_of(b"nowhere"));
    let mut pool: Vec<Vec<u8>> = cids.iter().filter_map(|k| store.get(k).map(|b| b.to_vec())).collect();
    pool.push(crafted(rng, &cids));
    pool.push(crafted(rng, &cids));
    let mut feed = Feed {
        store,
        pool,
        cids,
        off,
        unexpected: 0,
        bytes: 0,
        base: allocated(),
    };
    c.describe(|| {
        let root = feed.store.get(&root).unwrap_or_default();
        format!("root block {}, something unexpected once in {} steps", hexs(root), feed.off)
    });
    let op = rng.below(10);
    let mut key = fp2(special.min(16), fp(&root));
    for round in 0..3 {
        feed.bytes = 0;
        feed.base = allocated();
        match if special < 16 { round + 1 } else { op } {
            0 => {
                let b = feed.bad(rng, None);
                feed.bytes += b.len() as u64;
                feed.unexpected += 1;
                parse_all(c, &b)?;
                feed.within_bounds("parsing")?;
                key = fp2(key, fp(&b));
            }
            1 => hostile_visit(c, rng, &mut feed, &root, steps)?,
            2 => hostile_walk(c, rng, &mut feed, &root, steps)?,
            3 => hostile_lookup(c, rng, &mut feed, &root, steps)?,
            4 | 5 => hostile_visit(c, rng, &mut feed, &root, steps)?,
            6 | 7 => hostile_walk(c, rng, &mut feed, &root, steps)?,
            _ => hostile_lookup(c, rng, &mut feed, &root, steps)?,
        }
        c.max("most bytes supplied to an operation", feed.bytes);
        c.max("most bytes requested by an operation and its harness", allocated() - feed.base);
    }
    c.add("unexpected blocks supplied", feed.unexpected);
    if feed.unexpected > 0 || special < 150 {
        c.counts(fp2(key, fp2(op, rng.next())));
    }
    Ok(())
}

// ---- X02 ---------------------------------------------------------------------------------------

/// Something to read, and how.
#[derive(Clone)]
pub(super) enum Job {
    Visit(Vec<u8>, Option<Range<u64>>),
    Walk(Vec<u8>, String),
    Lookup(Vec<u8>, String),
}

#[derive(PartialEq, Debug, Clone)]
pub(super) enum Log {
    V(VLog),
    W(WLog),
    L(Vec<(Vec<u8>, Vec<Vec<u8>>)>, Option<Found>, Option<BadLink>),
}

impl Log {
    pub(super) fn failed(&self) -> bool {
        match self {
            Log::V(v) => v.err.is_some(),
            Log::W(w) => w.err.is_some(),
            Log::L(_, e, _) => matches!(e, Some(Found::Err(..))),
        }
    }
    pub(super) fn len(&self) -> usize {
        match self {
            Log::V(v) => v.steps.len(),
            Log::W(w) => w.steps.len(),
            Log::L(s, ..) => s.len(),
        }
    }
}

pub(super) const ENOUGH: usize = 400;

pub(super) enum Run<'s> {
    V(VisitRun<'s>),
    W(WalkRun<'s>),
    L(LookupRun<'s, 's>),
}

#[derive(Default)]
pub(super) struct Caches {
    pub(super) file: Option<visit::Cache>,
    pub(super) dir: Option<dir::Cache>,
}

impl<'s> Run<'s> {
    pub(super) fn new(store: &'s Store, j: &'s Job) -> Run<'s> {
        match j {
            Job::Visit(root, r) => Run::V(VisitRun::new(store, root, r.clone(), 3000)),
            Job::Walk(root, name) => Run::W(WalkRun::new(store, root, name, 3000)),
            Job::Lookup(root, name) => Run::L(LookupRun::new(store, root, name, 3000)),
        }
    }
    pub(super) fn step(&mut self, k: &mut Caches) -> R {
        match self {
            Run::V(v) => v.step(&mut k.file),
            Run::W(w) => w.step(&mut k.file),
            Run::L(l) => l.step(&mut k.dir),
        }
    }
    pub(super) fn done(&self) -> bool {
        // damaged blocks may link to blocks above them
        match self {
            Run::V(v) => v.done || v.log.steps.len() >= ENOUGH,
            Run::W(w) => w.done || w.log.steps.len() >= ENOUGH,
            Run::L(l) => l.end.is_some() || l.steps.len() >= ENOUGH,
        }
    }
    /// What it announces at this point.
    pub(super) fn look(&self) -> String {
        match self {
            Run::V(v) => v.look(),
            Run::W(w) => w.look(),
            Run::L(l) => l.look(),
        }
    }
    pub(super) fn log(self) -> Log {
        match self {
            Run::V(v) => Log::V(v.log),
            Run::W(w) => Log::W(w.log),
            Run::L(l) => Log::L(l.steps, l.end, l.bad_link),
        }
    }
}

pub(super) fn alone(store: &Store, j: &Job) -> Result<Log, Fail> {
    let mut r = Run::new(store, j);
    while !r.done() {
        // no cache is ever left for the next step
        r.step(&mut Caches::default())?;
    }
    Ok(r.log())
}

/// The same, but with the targets of the first block in another order.
fn twin(j: &Job, store: &mut Store) -> Option<Job> {
    let mut j = j.clone();
    let root = match &mut j {
        Job::Visit(r, _) | Job::Walk(r, _) | Job::Lookup(r, _) => r,
    };
    let (mut node, _) = pbo::dec_node(store.get(root)?).ok()?;
    let mut hashes: Vec<_> = node.links.iter().map(|l| l.hash.clone()).collect();
    if hashes.len() < 2 {
        return None;
    }
    hashes.rotate_left(1);
    for (l, h) in node.links.iter_mut().zip(hashes) {
        l.hash = h;
    }
    *root = store.put(pbo::enc_node(&node), 0);
    Some(j)
}

/// Two to five things to read from one set of blocks, some of them damaged.
pub(super) fn some_jobs(rng: &mut Rng, store: &mut Store) -> Vec<Job> {
    let mut jobs = Vec::new();
    for _ in 0..rng.usize(2, 5) {
        let ink = Ink::random(rng);
        match rng.below(5) {
            0 | 1 => {
                let dag = model::random_dag(rng, false);
                let meta = Meta::sparse(rng);
                let f = lay_file(rng, &ink, store, &dag, &meta);
                let range = if rng.bool() {
                    let a = rng.below(f.total() + 2);
                    Some(a..a + rng.below(f.total() + 2))
                } else {
                    None
                };
                jobs.push(Job::Visit(f.root().to_vec(), range));
            }
            2 | 3 => {
                let t = TreeGen::random(rng).tree(rng, 3);
                let l = lay_tree(rng, &ink, store, &t, &Default::default(), true);
                jobs.push(Job::Walk(l.cid, model::root_name(rng)));
            }
            _ if rng.bool() => {
                let t = TreeGen::random(rng).dir(rng, 2);
                let l = lay_tree(rng, &ink, store, &t, &Default::default(), true);
                let names: Vec<&str> = match &t {
                    Tree::Dir { kids, .. } => kids.iter().map(|k| &*k.0).collect(),
                    _ => Vec::new(),
                };
                let needle = if names.is_empty() || rng.one_in(4) {
                    model::name(rng)
                } else {
                    rng.pick(&names).to_string()
                };
                jobs.push(Job::Lookup(l.cid, needle));
            }
            _ => {
                let mut g = TreeGen::random(rng);
                let t = g.hamt(rng, 3);
                let l = lay_tree(rng, &ink, store, &t, &Default::default(), true);
                let mut names = Vec::new();
                if let Tree::Hamt { root, .. } = &t {
                    root.entries(&mut names);
                }
                let needle = if !names.is_empty() && rng.bool() {
                    rng.pick(&names).0.to_string()
                } else {
                    model::name(rng)
                };
                jobs.push(Job::Lookup(l.cid, needle));
            }
        }
    }
    // the same thing at the same time as itself
    if rng.one_in(3) {
        let j = jobs[0].clone();
        jobs.push(j);
    }
    // and one which cannot be told apart by the length of its first block or by names
    for i in 0..jobs.len() {
        if rng.one_in(3) {
            let j = twin(&jobs[i], store);
            jobs.extend(j);
        }
    }
    if rng.bool() {
        let mut cids: Vec<Vec<u8>> = store.map.keys().cloned().collect();
        cids.sort();
        for _ in 0..rng.usize(1, 3) {
            let k = if rng.one_in(3) {
                match rng.pick(&jobs) {
                    Job::Visit(r, _) | Job::Walk(r, _) | Job::Lookup(r, _) => r.clone(),
                }
            } else {
                rng.pick(&cids).clone()
            };
            if !rng.one_in(4) {
                spoil(rng, store, &k);
                continue;
            }
            let other = store.get(rng.pick(&cids)).unwrap().to_vec();
            let mut b = store.get(&k).unwrap().to_vec();
            mutate(rng, &mut b, &other);
            store.map.insert(k, b);
        }
    }
    // targets that only a damaged link has
    store.otherwise = Some(pbo::enc_block(&[], &Msg::of(pbo::DIR)));
    jobs
}

pub(super) fn shown(jobs: &[Job]) -> String {
    jobs.iter()
        .map(|j| match j {
            Job::Visit(r, x) => format!("visit {} range {:?}", model::tail(r), x),
            Job::Walk(r, n) => format!("walk {} as {:?}", model::tail(r), n),
            Job::Lookup(r, n) => format!("look up {:?} in {}", n, model::tail(r)),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

fn x02(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let mut store = Store::default();
    let jobs = some_jobs(rng, &mut store);
    c.describe(|| shown(&jobs));
    let mut want = Vec::new();
    for j in &jobs {
        // on a thread of its own, which has seen nothing else
        want.push(crate::elsewhere(|| alone(&store, j))?);
    }
    // what comes before and after does not matter
    for _ in 0..2 {
        let mut order: Vec<usize> = (0..jobs.len()).collect();
        rng.shuffle(&mut order);
        for i in order {
            let b = alone(&store, &jobs[i])?;
            ensure!(want[i] == b, "the same operation again gives {:?}, not {:?}", b, want[i]);
        }
    }
    c.add("operations", jobs.len() as u64);
    c.add("operations which fail", want.iter().filter(|l| l.failed()).count() as u64);

    // one after the other, with what was left behind
    let mut k = Caches::default();
    let mut made = 0;
    if rng.one_in(3) {
        // of collections which were used for something else
        k.file = drive::stale_file_cache(rng);
        k.dir = drive::stale_dir_cache(rng);
        made = k.file.is_some() as u64 + k.dir.is_some() as u64;
    }
    c.add("caches made of collections of the caller", made);
    let mut left = 0u64;
    // caches may grow old
    let rounds = if rng.one_in(150) { rng.usize(40, 200) } else { 2 };
    c.max("most rounds with the same caches", rounds as u64);
    for round in 0..rounds {
        for (i, j) in jobs.iter().enumerate() {
            let mut r = Run::new(&store, j);
            let give_up = if rng.one_in(4) { Some(rng.idx(want[i].len() + 1)) } else { None };
            let mut n = 0;
            left += (k.file.is_some() || k.dir.is_some()) as u64;
            while !r.done() && give_up != Some(n) {
                r.step(&mut k)?;
                n += 1;
            }
            if give_up.is_none() {
                let got = r.log();
                ensure!(
                    got == want[i],
                    "operation {} in round {} with a cache left behind gives {:?}, not {:?}",
                    i,
                    round,
                    got,
                    want[i]
                );
                c.add("operations with caches left behind", 1);
            } else {
                c.add("operations abandoned", 1);
            }
        }
    }
    c.add("starts with a cache at hand", left);

    // all at once
    let mut runs: Vec<Run<'_>> = jobs.iter().map(|j| Run::new(&store, j)).collect();
    let mut schedule = 0;
    let mut last = usize::MAX;
    let mut switches = 0u64;
    // some take turns, some run in bursts
    let burst = *rng.pick(&[1, 2, 6]);
    loop {
        let open: Vec<usize> = (0..runs.len()).filter(|i| !runs[*i].done()).collect();
        if open.is_empty() {
            break;
        }
        let i = if last != usize::MAX && !runs[last].done() && !rng.one_in(burst) {
            last
        } else {
            *rng.pick(&open)
        };
        runs[i].step(&mut k)?;
        if rng.one_in(20) {
            k = Caches::default();
            if rng.one_in(4) {
                k.file = drive::stale_file_cache(rng);
            }
        }
        switches += (i != last && last != usize::MAX) as u64;
        last = i;
        schedule = fp2(schedule, i as u64 + 1);
        c.add("interleaved steps", 1);
    }
    for (i, r) in runs.into_iter().enumerate() {
        let got = r.log();
        ensure!(
            got == want[i],
            "operation {} interleaved with others gives {:?}, not {:?}",
            i,
            got,
            want[i]
        );
    }
    c.add("switches between operations", switches);
    c.distinct("schedules", schedule);
    if left > 0 || switches > 0 {
        c.counts(fp2(schedule, fp(format!("{:?}", want).as_bytes())));
    }
    Ok(())
}

// ---- X03 ---------------------------------------------------------------------------------------

fn broken_hash(rng: &mut Rng, was: &[u8]) -> Option<Vec<u8>> {
    loop {
        let h = match rng.below(6) {
            0 => None,
            1 => Some(Vec::new()),
            2 => Some(was[..rng.idx(was.len())].to_vec()),
            3 => {
                let n = rng.usize(1, 8);
                Some(rng.bytes(n))
            }
            4 => {
                // a version that does not exist
                let mut b = was.to_vec();
                b[0] = 2 + rng.below(15) as u8;
                Some(b)
            }
            _ => {
                // as a text instead of as bytes
                Some(b"QmUNLLsPACCz1vLxQVkXqqLX5R1X345qqfHbsf67hvA3Nn".to_vec())
            }
        };
        // the identifier library is not under test: it decides what an identifier is
        if libipld::Cid::try_from(h.as_deref().unwrap_or_default()).is_err() {
            return h;
        }
    }
}

fn expected(links: &[Link], i: usize) -> BadLink {
    BadLink {
        nth: i,
        name: links[i].name_str().to_string(),
        hash: links[i].hash_bytes().to_vec(),
    }
}

/// The report names one of the broken links which were needed, and can be read.
fn reported(what: &str, got: &Option<BadLink>, text: &str, debug: &str, any_of: &[BadLink]) -> R {
    let b = match got {
        Some(b) => b,
        None => return Err(Fail(format!("{}: expected a report of one of {:?}, got {:?} {}", what, any_of, debug, text))),
    };
    ensure!(
        any_of.contains(b),
        "{}: reported is {:?} ({}), but the broken links are {:?}",
        what,
        b,
        text,
        any_of
    );
    let shown = format!("{:?}", b.name);
    ensure!(
        text.contains(&b.nth.to_string()) && text.contains(shown.trim_matches('"')),
        "{}: the report {:?} does not mention position {} and name {:?}",
        what,
        text,
        b.nth,
        b.name
    );
    Ok(())
}

fn x03(c: &mut Case) -> R {
    match c.rng.clone().below(3) {
        0 => x03_file(c),
        1 => x03_tree(c),
        _ => x03_resolve(c),
    }
}

fn x03_file(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    rng.next();
    let ink = Ink::random(rng);
    let mut s = Shape::random(rng);
    // every block has a place of its own
    s.leaves = model::Leaves::Counting;
    let dag = model::random_dag_with(rng, &mut s, false);
    let meta = Meta::sparse(rng);
    let mut store = Store::default();
    let seed = rng.next();
    let good = lay_file(&mut Rng::new(seed), &ink, &mut store, &dag, &meta);
    let inner: Vec<usize> = (0..good.blocks.len()).filter(|i| !good.blocks[*i].is_leaf).collect();
    if inner.is_empty() {
        c.add("files of one block", 1);
        return Ok(());
    }
    let at = *rng.pick(&inner);
    let n = good.blocks[at].links.len();
    let mut which: Vec<usize> = vec![rng.idx(n)];
    if rng.one_in(4) {
        which.push(rng.idx(n));
        which.sort();
        which.dedup();
    }
    // the broken twin: only the block at hand is different, under its old identifier
    let mut links = good.blocks[at].links.clone();
    for i in &which {
        links[*i].hash = broken_hash(rng, links[*i].hash.as_deref().unwrap());
    }
    let cid = good.blocks[at].cid.clone();
    // the same block may be linked from elsewhere, and is broken there, too
    let broken_kids: Vec<&model::FBlock> = good
        .blocks
        .iter()
        .filter(|b| b.cid == cid)
        .flat_map(|b| which.iter().map(move |i| b.kids[*i]))
        .map(|k| &good.blocks[k])
        .collect();
    let all: Vec<BadLink> = which.iter().map(|i| expected(&links, *i)).collect();
    let mut m = good.blocks[at].msg.clone();
    if at == 0 {
        meta.into_msg(&mut m);
    }
    let broken = if ink.odd {
        pbo::enc_block_odd(rng, &links, &m)
    } else {
        pbo::enc_block(&links, &m)
    };
    let mut bad = store.clone();
    bad.map.insert(cid.clone(), broken);
    c.describe(|| format!("file of {} blocks, links {:?} of block {} are broken", good.blocks.len(), which, at));
    c.distinct("positions of broken links", fp2(at as u64, which[0] as u64));

    // everything
    let log = visit(&bad, good.root(), None, &mut None, 5000)?;
    let err = log.err.clone().unwrap_or_default();
    reported("visit", &log.bad_link, &log.err_text, &err, &all)?;
    let got = log.bytes();
    let due = &good.blocks[good.blocks[at].kids[which[0]]];
    ensure!(
        good.content.starts_with(&got) && got.len() as u64 <= due.start,
        "visit: {} bytes before the report of a link at offset {}, or not the right ones",
        got.len(),
        due.start
    );
    let name = model::root_name(rng);
    let log = walk(&bad, good.root(), &name, &mut None, 5000)?;
    let (_, err) = log.err.clone().unwrap_or_default();
    reported("walk", &log.bad_link, &log.err_text, &err, &all)?;
    let got: Vec<u8> = log.steps.iter().flat_map(|s| s.ev.bytes.clone()).collect();
    ensure!(
        good.content.starts_with(&got) && got.len() as u64 <= due.start,
        "walk: {} bytes before the report of a link at offset {}, or not the right ones",
        got.len(),
        due.start
    );
    c.add("broken links reported", 2);

    // a part of it
    for _ in 0..4 {
        let total = good.total();
        let k = &good.blocks[good.blocks[at].kids[*rng.pick(&which)]];
        let range = match rng.below(4) {
            // before and after the child
            0 => 0..rng.below(k.start + 1),
            1 => {
                let a = k.end + 1 + rng.below(8);
                a..a + rng.below(total + 4)
            }
            2 => {
                let a = k.start + rng.below((k.end - k.start).max(1));
                a..a + 1 + rng.below(4)
            }
            _ => {
                let a = rng.below(total + 1);
                a..a + rng.below(total + 2 - a)
            }
        };
        if range.start > range.end {
            continue;
        }
        let touched = |b: &model::FBlock| b.start <= range.end && range.start <= b.end;
        let inside_of =
            |b: &model::FBlock| b.start < b.end && range.start < range.end && b.start < range.end && range.start < b.end;
        let log = visit(&bad, good.root(), Some(range.clone()), &mut None, 5000)?;
        if !broken_kids.iter().any(|k| touched(k)) {
            let want = visit(&store, good.root(), Some(range.clone()), &mut None, 5000)?;
            ensure!(
                log.bytes() == want.bytes() && log.err == want.err,
                "visit of {:?}: broken links {:?} outside of it change {} to {}",
                range,
                all,
                want.brief(),
                log.brief()
            );
            c.add("broken links outside of the range", 1);
        } else if broken_kids.iter().any(|k| inside_of(k)) {
            let err = log.err.clone().unwrap_or_default();
            reported("ranged visit", &log.bad_link, &log.err_text, &err, &all)?;
            let from = range.start.min(total) as usize;
            let got = log.bytes();
            ensure!(
                good.content[from..].starts_with(&got),
                "visit of {:?}: wrong bytes before the report",
                range
            );
            c.add("broken links reported", 1);
        } else {
            c.add("undecided", 1);
        }
    }
    c.counts(fp2(fp(&cid), fp(format!("{:?}", all).as_bytes())));
    Ok(())
}

/// Breaks links of one block of a store. Gives the links it has now.
fn break_links(rng: &mut Rng, store: &mut Store, cid: &[u8], pick: impl Fn(&mut Rng, usize, &Link) -> bool) -> (Vec<Link>, Vec<usize>) {
    let (mut node, _) = pbo::dec_node(store.get(cid).unwrap()).ok().expect("made by the harness");
    let mut which = Vec::new();
    for (i, l) in node.links.iter_mut().enumerate() {
        if pick(rng, i, l) {
            l.hash = broken_hash(rng, l.hash.as_deref().unwrap());
            which.push(i);
        }
    }
    let b = if rng.one_in(3) {
        pbo::enc_node_odd(rng, &node)
    } else {
        pbo::enc_node(&node)
    };
    store.map.insert(cid.to_vec(), b);
    (node.links, which)
}

/// Turns a block into one that makes operations fail in the middle, with something done before.
fn spoil(rng: &mut Rng, store: &mut Store, cid: &[u8]) {
    let b = store.get(cid).unwrap();
    let node = match pbo::dec_node(b) {
        Ok((n, _)) => n,
        Err(_) => return,
    };
    let mut m = match node.data.as_deref().map(pbo::dec_msg) {
        Some(Ok(m)) => m,
        _ => return,
    };
    let mut links = node.links;
    let n = links.len();
    match rng.below(10) {
        // the later the link the more is left behind
        0..=3 if n > 0 => {
            let i = if rng.bool() { n - 1 } else { rng.idx(n) };
            let was = links[i].hash_bytes().to_vec();
            if was.is_empty() {
                return;
            }
            links[i].hash = broken_hash(rng, &was);
        }
        4 if n > 0 => {
            let i = rng.idx(n);
            links[i].name = rng.pick(&[None, Some(""), Some(".."), Some("FA"), Some("FA/"), Some("F")]).map(String::from);
        }
        5 if n > 1 => {
            // two of the same name
            let i = rng.idx(n);
            links[i].name = links[rng.idx(n)].name.clone();
        }
        6 if !m.blocksizes.is_empty() => {
            let i = rng.idx(m.blocksizes.len());
            match rng.below(3) {
                0 => m.blocksizes[i] = m.blocksizes[i].wrapping_add(1),
                1 => drop(m.blocksizes.remove(i)),
                _ => m.blocksizes[i] = u64::MAX,
            }
        }
        7 => m.ty = Some(rng.below(6)),
        8 => m.mtime = Some((1, None)),
        _ => {
            m.fanout = Some(255);
        }
    }
    store.map.insert(cid.to_vec(), pbo::enc_block(&links, &m));
}

fn x03_tree(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    rng.next();
    let mut g = TreeGen::random(rng);
    g.share = false;
    let t = if rng.one_in(100) {
        g.extreme(rng)
    } else if rng.bool() {
        g.hamt(rng, 3)
    } else {
        g.dir(rng, 3)
    };
    let ink = Ink::random(rng);
    let mut store = Store::default();
    let name = model::root_name(rng);
    let mut path = std::path::PathBuf::new();
    path.push(&name);
    let laid = lay_tree(rng, &ink, &mut store, &t, &path, true);
    let with_links: Vec<usize> = laid
        .events
        .iter()
        .enumerate()
        .filter(|(_, e)| !pbo::children(store.get(&e.block).unwrap()).is_empty())
        .map(|(i, _)| i)
        .collect();
    if with_links.is_empty() {
        return Ok(());
    }
    let at = *rng.pick(&with_links);
    let cid = laid.events[at].block.clone();
    let at = laid.events.iter().position(|e| e.block == cid).unwrap();
    let n = pbo::children(store.get(&cid).unwrap()).len();
    let one = rng.idx(n);
    let more = rng.one_in(4);
    let (links, which) = break_links(rng, &mut store, &cid, |r, i, _| i == one || (more && r.one_in(3)));
    let all: Vec<BadLink> = which.iter().map(|i| expected(&links, *i)).collect();
    c.describe(|| format!("tree of {} blocks, links {:?} of the block of {} are broken", laid.events.len(), which, laid.events[at].brief()));
    let log = walk(&store, &laid.cid, &name, &mut None, laid.events.len() + 10)?;
    let (_, err) = log.err.clone().unwrap_or_default();
    reported("walk", &log.bad_link, &log.err_text, &err, &all)?;
    // what comes before is as if nothing was broken
    ensure!(log.steps.len() >= at, "reported {} steps early", at - log.steps.len());
    for (s, e) in log.steps.iter().zip(&laid.events) {
        ensure!(s.ev == *e, "walk before a broken link: got {}, expected {}", s.ev.brief(), e.brief());
    }
    c.add("broken links reported", 1);
    c.add("steps before a broken link", log.steps.len() as u64);
    c.distinct("positions of broken links", fp2(at as u64, which[0] as u64));
    c.counts(fp2(fp(&cid), fp(format!("{:?}", all).as_bytes())));
    Ok(())
}

fn shard_blocks(s: &Shard) -> usize {
    1 + s
        .slots
        .iter()
        .map(|(_, s)| match s {
            Slot::Bucket(b) => shard_blocks(b),
            _ => 0,
        })
        .sum::<usize>()
}

fn x03_resolve(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    rng.next();
    let hamt = rng.bool();
    let ink = Ink::random(rng);
    let mut store = Store::default();
    // entries that are never looked into
    let count = rng.usize(1, 9);
    let kids: Vec<(String, Tree)> = model::distinct_names(rng, count)
        .into_iter()
        .map(|n| {
            let target = n.clone().into_bytes();
            (
                n,
                Tree::Symlink {
                    meta: Meta::default(),
                    target,
                },
            )
        })
        .collect();
    let names: Vec<String> = kids.iter().map(|k| k.0.clone()).collect();
    let absent = loop {
        let n = model::name(rng);
        if !names.contains(&n) {
            break n;
        }
    };
    let t = if hamt {
        Tree::Hamt {
            meta: Meta::default(),
            root: if rng.one_in(3) {
                model::hashed_shard(rng, kids, 0)
            } else {
                model::loose_shard(rng, kids, 3)
            },
        }
    } else {
        Tree::Dir {
            meta: Meta::default(),
            kids,
        }
    };
    let laid = lay_tree(rng, &ink, &mut store, &t, &Default::default(), true);
    let intact = store.clone();
    // the blocks of the directory itself
    let mut own: Vec<Vec<u8>> = laid
        .events
        .iter()
        .filter(|e| e.kind == model::Kind::Root || e.kind == model::Kind::Bucket)
        .map(|e| e.block.clone())
        .collect();
    if let Tree::Hamt { root, .. } = &t {
        ensure!(own.len() == shard_blocks(root), "harness: shards are missing");
    }
    own.sort();
    own.dedup();
    let own: Vec<Vec<u8>> = own
        .into_iter()
        .filter(|b| !pbo::children(store.get(b).unwrap()).is_empty())
        .collect();
    if own.is_empty() {
        return Ok(());
    }
    let cid = rng.pick(&own).clone();
    let n = pbo::children(store.get(&cid).unwrap()).len();
    let one = rng.idx(n);
    let more = rng.one_in(3);
    let (links, which) = break_links(rng, &mut store, &cid, |r, i, _| i == one || (more && r.bool()));
    let all: Vec<BadLink> = which.iter().map(|i| expected(&links, *i)).collect();
    c.describe(|| {
        format!(
            "{} {:?}, broken in block {}: {:?}",
            if hamt { "shards of" } else { "directory of" },
            names,
            model::tail(&cid),
            all.iter().map(|b| (b.nth, &b.name, hex(&b.hash))).collect::<Vec<_>>()
        )
    });
    let bucket = |l: &BadLink| hamt && l.name.len() == 2;
    let entry = |l: &BadLink| if hamt { l.name.get(2..).unwrap_or("").to_string() } else { l.name.clone() };
    for needle in names.iter().chain(std::iter::once(&absent)) {
        let want = lookup(&intact, &laid.cid, needle, &mut None, None, 500)?;
        let got = lookup(&store, &laid.cid, needle, &mut None, None, 500)?;
        // a block which is asked for more than once says the same every time
        let mine: Vec<BadLink> = all.iter().filter(|b| !bucket(b) && entry(b) == *needle).cloned().collect();
        let buckets: Vec<BadLink> = all.iter().filter(|b| bucket(b)).cloned().collect();
        let (debug, text) = match &got.end {
            Found::Err(d, t) => (d.clone(), t.clone()),
            o => (format!("{:?}", o), String::new()),
        };
        let at = want.steps.iter().position(|s| s.0 == cid);
        if at.is_none() {
            // found before getting there
            ensure!(
                got.end == want.end,
                "looking up {:?}, which is found before the broken block: {:?}, without broken links {:?}",
                needle,
                got.end,
                want.end
            );
            c.add("broken links not reached", 1);
        } else if buckets.is_empty() && mine.is_empty() {
            ensure!(
                got.end == want.end && got.steps == want.steps,
                "looking up {:?}: {:?}, without the broken links of other names {:?}",
                needle,
                got.end,
                want.end
            );
            c.add("broken links ignored", 1);
        } else if buckets.is_empty() {
            reported("lookup", &got.bad_link, &text, &debug, &mine)?;
            c.add("broken links reported", 1);
        } else if mine.is_empty() && want.end == Found::No {
            reported("lookup", &got.bad_link, &text, &debug, &buckets)?;
            c.add("broken links reported", 1);
        } else {
            // a bucket is broken which need not be looked into
            let right = got.end == want.end;
            let said = reported("lookup", &got.bad_link, &text, &debug, &all).is_ok();
            ensure!(
                right || said,
                "looking up {:?} next to a broken bucket: {:?}, without {:?}",
                needle,
                got.end,
                want.end
            );
            c.add("undecided", 1);
        }
    }
    c.distinct("positions of broken links", fp2(own.len() as u64, which[0] as u64));
    c.counts(fp2(fp(&cid), fp(format!("{:?}{:?}", all, names).as_bytes())));
    Ok(())
}
