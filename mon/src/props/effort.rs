//! X08: how the work of an operation grows with what it is given.
//!
//! The operation runs in a process of its own under valgrind's cachegrind, which counts the
//! instructions executed between two requests of this file, nothing else: no clock is involved, and
//! running it again counts the same.

use super::{Prop, EXPLORED};
use crate::drive::cid_from;
use crate::pbo::{self, Link, Msg};
use crate::util::{fp2, Rng};
use crate::{Case, Fail, R};
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
use unixfs_v1::dir::MaybeResolved;
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};
use unixfs_v1::file::visit::{Cache, IdleFileVisit};
use unixfs_v1::walk::Walker;

pub static PROPS: &[Prop] = &[Prop {
    id: "X08",
    title: "Work is proportional to what is handled",
    run: x08,
    quick: KINDS + 10,
    rule: "imports, builds, visits, walks, lookups and parses of one shape in five sizes, each twice the one before; cachegrind counts the instructions between the first and the last call of the crate; all count",
    assumptions: &[EXPLORED, "A term growing faster than n log n is noticed once it dominates at the sizes measured (thousands to hundreds of thousands of items)."],
}];

// ---- the meter ---------------------------------------------------------------------------------

/// A request to valgrind; does nothing outside of it.
#[cfg(target_arch = "x86_64")]
fn request(code: u64) -> u64 {
    let args: [u64; 6] = [code, 0, 0, 0, 0, 0];
    let mut result: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3",
            "rol rdi, 13",
            "rol rdi, 61",
            "rol rdi, 51",
            "xchg rbx, rbx",
            inout("rdx") result,
            in("rax") &args,
        );
    }
    result
}

#[cfg(not(target_arch = "x86_64"))]
fn request(_: u64) -> u64 {
    0
}

const RUNNING: u64 = 0x1001;
const CACHEGRIND: u64 = (b'C' as u64) << 24 | (b'G' as u64) << 16;

/// What the operation does is counted, what is around it is not.
fn metered<T>(f: impl FnOnce() -> T) -> T {
    request(CACHEGRIND);
    let t = f();
    request(CACHEGRIND + 1);
    t
}

// ---- blocks, known by number -------------------------------------------------------------------

#[derive(Default)]
struct Blocks(Vec<Vec<u8>>);

fn cid_no(i: usize) -> Vec<u8> {
    let mut c = vec![1, 0x70, 0x12, 0x20];
    c.extend_from_slice(&(i as u64).to_be_bytes());
    c.resize(36, 0xa5);
    c
}

impl Blocks {
    fn put(&mut self, b: Vec<u8>) -> usize {
        self.0.push(b);
        self.0.len() - 1
    }
    fn of(&self, c: &libipld::Cid) -> &[u8] {
        let d = c.hash().digest();
        let mut n = [0; 8];
        n.copy_from_slice(&d[..8]);
        &self.0[u64::from_be_bytes(n) as usize]
    }
}

fn link(name: &str, to: usize) -> Link {
    Link::new(&cid_no(to), name, 7)
}

fn leaf(len: usize) -> Vec<u8> {
    let mut m = Msg::of(pbo::FILE);
    m.data = Some(vec![b'x'; len]);
    m.filesize = Some(len as u64);
    pbo::enc_block(&[], &m)
}

/// A file node of children of given sizes.
fn branch(kids: &[(usize, u64)]) -> (Vec<u8>, u64) {
    let mut m = Msg::of(pbo::FILE);
    let sum = kids.iter().map(|k| k.1).sum();
    m.filesize = Some(sum);
    m.blocksizes = kids.iter().map(|k| k.1).collect();
    let links: Vec<Link> = kids.iter().map(|k| link("", k.0)).collect();
    (pbo::enc_block(&links, &m), sum)
}

/// The file's root and size. Half of the time it begins above the part which is large.
fn file(rng: &mut Rng, b: &mut Blocks, shape: u64, n: usize) -> (usize, u64) {
    let part = bare(rng, b, shape, n);
    if rng.bool() {
        return part;
    }
    let l = (b.put(leaf(1)), 1);
    let (x, s) = branch(&[l, part, l]);
    (b.put(x), s)
}

fn bare(rng: &mut Rng, b: &mut Blocks, shape: u64, n: usize) -> (usize, u64) {
    match shape {
        0 => {
            let kids: Vec<_> = (0..n).map(|_| (b.put(leaf(3)), 3)).collect();
            let (x, s) = branch(&kids);
            (b.put(x), s)
        }
        1 => {
            // lopsided, the long way first, last or in the middle
            let side = rng.below(3) as usize;
            let mut at = (b.put(leaf(2)), 2);
            for _ in 0..n / 2 {
                let mut kids: Vec<_> = (0..2).map(|_| (b.put(leaf(1)), 1)).collect();
                kids.insert(side, at);
                let (x, s) = branch(&kids);
                at = (b.put(x), s);
            }
            at
        }
        _ => {
            let k = rng.usize(2, 5);
            let mut level: Vec<(usize, u64)> = (0..n).map(|_| (b.put(leaf(3)), 3)).collect();
            while level.len() > 1 {
                level = level
                    .chunks(k)
                    .map(|c| {
                        let (x, s) = branch(c);
                        (b.put(x), s)
                    })
                    .collect();
            }
            level[0]
        }
    }
}

fn dir(links: &[Link]) -> Vec<u8> {
    pbo::enc_block(links, &Msg::of(pbo::DIR))
}

fn shard(links: &[Link]) -> Vec<u8> {
    pbo::enc_block(links, &Msg::hamt())
}

// ---- the operations ----------------------------------------------------------------------------

const KINDS: u64 = 56;

fn name_of(kind: u64) -> &'static str {
    match kind {
        0..=5 | 46 => "instructions of imports",
        6..=15 | 42 | 43 | 52 => "instructions of builds",
        16..=21 | 47..=49 => "instructions of visits",
        22..=31 | 40 | 44 | 51 | 53 | 55 => "instructions of walks",
        32..=36 | 45 | 50 | 54 => "instructions of lookups",
        _ => "instructions of parsing and writing",
    }
}

/// The largest of the sizes in the quick tier.
fn size_of(kind: u64) -> usize {
    match kind {
        0..=1 => 30_000,
        2..=5 => 24_000,
        6..=15 => 10_000,
        52 => 16_000,
        16..=21 | 47..=49 => 24_000,
        27 => 2_000,
        22..=31 | 44 | 51 | 53 | 55 => 14_000,
        32..=36 | 45 | 50 | 54 => 24_000,
        _ => 60_000,
    }
}

/// How much more may be needed for the second step of a size than for the first one, which is half
/// of it: twice as much if the work is proportional, four times as much if it is quadratic.
fn most(kind: u64) -> f64 {
    match kind {
        // the paths reported grow as well
        27 => 6.0,
        _ => 3.0,
    }
}

fn import(chunk: usize, k: usize, data: &[u8], each: usize) -> u64 {
    let mut adder = FileAdder::builder()
        .with_chunker(Chunker::Size(chunk))
        .with_collector(BalancedCollector::with_branching_factor(k))
        .build();
    metered(|| {
        let mut at = 0;
        let mut blocks = 0;
        while at < data.len() {
            let end = at.saturating_add(each).min(data.len());
            let (it, used) = adder.push(&data[at..end]);
            blocks += it.count();
            at += used;
        }
        blocks += adder.finish().count();
        blocks as u64
    })
}

fn visit_with(b: &Blocks, root: usize, range: Option<std::ops::Range<u64>>, cache: &mut Option<Cache>) -> u64 {
    let mut v = IdleFileVisit::default();
    if let Some(r) = range {
        v = v.with_target_range(r);
    }
    let (bytes, _, _, mut next) = v.start(&b.0[root]).expect("well-formed");
    let mut n = bytes.len() as u64;
    while let Some(v) = next {
        let block = b.of(v.pending_links().0);
        let _ = v.file_size();
        let (bytes, more) = v.continue_walk(block, cache).expect("well-formed");
        n += 1 + bytes.len() as u64;
        next = more;
    }
    n
}

fn visit(b: &Blocks, root: usize, range: Option<std::ops::Range<u64>>) -> u64 {
    metered(|| visit_with(b, root, range, &mut None))
}

fn walk(b: &Blocks, root: usize) -> u64 {
    metered(|| walk_with(b, root, &mut None))
}

fn walk_with(b: &Blocks, root: usize, cache: &mut Option<Cache>) -> u64 {
    let mut w = Walker::new(cid_from(&cid_no(root)), "root".into());
    let mut n = 0;
    while w.should_continue() {
        let block = b.of(w.pending_links().0);
        let item = w.next(block, cache).expect("well-formed");
        n += 1 + item.as_entry_path_len();
    }
    n
}

trait PathLen {
    fn as_entry_path_len(&self) -> u64;
}

impl PathLen for unixfs_v1::walk::ContinuedWalk<'_> {
    fn as_entry_path_len(&self) -> u64 {
        use unixfs_v1::walk::ContinuedWalk::*;
        let p = match self {
            File(_, _, p, _, _) => p,
            RootDirectory(_, p, _) | Directory(_, p, _) | Bucket(_, p) | Symlink(_, _, p, _) => p,
        };
        p.as_os_str().len().min(1) as u64
    }
}

fn lookup(b: &Blocks, root: usize, name: &str, owned: bool) -> u64 {
    metered(|| lookup_with(b, root, name, owned, &mut None))
}

fn lookup_with(b: &Blocks, root: usize, name: &str, owned: bool, cache: &mut Option<unixfs_v1::dir::Cache>) -> u64 {
    let mut at = unixfs_v1::dir::resolve(&b.0[root], name, cache).expect("well-formed");
    let mut n = 1;
    while let MaybeResolved::NeedToLoadMore(l) = at {
        let l = if owned { l.with_owned_needle() } else { l };
        let block = b.of(l.pending_links().0);
        n += 1;
        at = l.continue_walk(block, cache).expect("well-formed");
    }
    n
}

/// Does what the case says in the size given, and returns something which depends on it.
pub fn perform(kind: u64, seed: u64, n: usize) -> u64 {
    let rng = &mut Rng::new(fp2(kind, seed));
    match kind {
        // imports: many chunks
        0..=3 => {
            let k = match kind {
                0 => 2,
                1 => rng.usize(3, 9),
                2 => rng.usize(100, 300),
                _ => *rng.pick(&[usize::MAX, 1 << 20, 5000]),
            };
            let chunk = rng.usize(1, 9);
            let data = vec![7; n * chunk];
            let each = *rng.pick(&[1, chunk, chunk + 1, 3 * chunk, usize::MAX]);
            import(chunk, k, &data, each)
        }
        // few chunks, in small pieces
        4 | 5 => {
            let n = 40 * n;
            let data = vec![7; n];
            import(if kind == 4 { n + 1 } else { n / 8 }, 3, &data, rng.usize(1, 30))
        }
        // directories: flat, in different orders
        6..=8 => {
            let mut names: Vec<String> = (0..n).map(|i| format!("{:08}", i)).collect();
            match kind {
                6 => {}
                7 => names.reverse(),
                _ => rng.shuffle(&mut names),
            }
            let prefix = *rng.pick(&["", "a/", "a/b/c/"]);
            let paths: Vec<String> = names.iter().map(|s| format!("{}{}", prefix, s)).collect();
            build(rng, &paths, &[])
        }
        // one directory each
        9 => {
            let paths: Vec<String> = (0..n).map(|i| format!("{:x}/f", i)).collect();
            build(rng, &paths, &[])
        }
        // a tree
        10 | 11 => {
            let k = rng.usize(2, 20);
            let paths: Vec<String> = (0..n)
                .map(|i| {
                    let mut p = String::new();
                    let mut x = i / k;
                    while x > 0 {
                        p.push_str(&format!("d{}/", x % k));
                        x /= k;
                    }
                    format!("{}f{}", p, i)
                })
                .collect();
            build(rng, &paths, &[])
        }
        // metadata, of many directories or of one many times
        12 => {
            let dirs: Vec<String> = (0..n).map(|i| format!("{:x}", i)).collect();
            build(rng, &[], &dirs)
        }
        13 => {
            let dirs: Vec<String> = (0..4 * n).map(|_| "a/b".to_string()).collect();
            build(rng, &[], &dirs)
        }
        // refused links
        14 => {
            let paths: Vec<String> = (0..4 * n).map(|i| if i % 3 == 0 { "a/b" } else { "a/b/c" }.to_string()).collect();
            build(rng, &paths, &[])
        }
        // many directories above each other
        15 => {
            let path = "a/".repeat(n) + "b";
            build(rng, &[path], &[])
        }
        // visits of the whole and of parts
        16..=21 => {
            let mut b = Blocks::default();
            let (root, size) = file(rng, &mut b, (kind - 16) % 3, n);
            let range = match (kind - 16) / 3 {
                0 => None,
                _ => {
                    let from = *rng.pick(&[0, size / 3, size / 2]);
                    Some(from..*rng.pick(&[size, size / 2 + 1, u64::MAX]))
                }
            };
            visit(&b, root, range)
        }
        // walks
        22..=24 => {
            let mut b = Blocks::default();
            let (f, _) = file(rng, &mut b, kind - 22, n);
            let g = b.put(leaf(4));
            let root = b.put(dir(&[link("a", f), link("b", g)]));
            walk(&b, root)
        }
        25 => {
            // one flat directory
            let mut b = Blocks::default();
            let l = b.put(leaf(4));
            let links: Vec<Link> = (0..n).map(|i| link(&format!("{:x}", i), l)).collect();
            let root = b.put(dir(&links));
            walk(&b, root)
        }
        26 => {
            // directories in a directory
            let mut b = Blocks::default();
            let l = b.put(leaf(4));
            let links: Vec<Link> = (0..n)
                .map(|i| {
                    let d = b.put(dir(&[link("f", l)]));
                    link(&format!("{:x}", i), d)
                })
                .collect();
            let root = b.put(dir(&links));
            walk(&b, root)
        }
        27 => {
            // above each other
            let mut b = Blocks::default();
            let l = b.put(leaf(4));
            let mut at = b.put(dir(&[link("f", l)]));
            for _ in 0..n / 2 {
                at = b.put(dir(&[link("a", at), link("b", l)]));
            }
            walk(&b, at)
        }
        28 => {
            // a flat shard
            let mut b = Blocks::default();
            let l = b.put(leaf(4));
            let links: Vec<Link> = (0..n).map(|i| link(&format!("{:02X}{:x}", i % 256, i), l)).collect();
            let root = b.put(shard(&links));
            walk(&b, root)
        }
        29 => {
            // a shard of many buckets
            let mut b = Blocks::default();
            let l = b.put(leaf(4));
            let links: Vec<Link> = (0..n)
                .map(|i| {
                    let d = b.put(shard(&[link(&format!("AAf{:x}", i), l)]));
                    link(&format!("{:02X}", i % 256), d)
                })
                .collect();
            let root = b.put(shard(&links));
            walk(&b, root)
        }
        30 => {
            // a chain of buckets
            let mut b = Blocks::default();
            let l = b.put(leaf(4));
            let mut at = b.put(shard(&[]));
            for i in 0..n {
                at = b.put(shard(&[link("AA", at), link(&format!("ABf{:x}", i), l)]));
            }
            walk(&b, at)
        }
        31 => {
            // many files of a few blocks, and symlinks
            let mut b = Blocks::default();
            let kids: Vec<_> = (0..3).map(|_| (b.put(leaf(3)), 3)).collect();
            let f = b.put(branch(&kids).0);
            let mut m = Msg::of(pbo::SYMLINK);
            m.data = Some(b"to".to_vec());
            let s = b.put(pbo::enc_block(&[], &m));
            let links: Vec<Link> = (0..n / 2).map(|i| link(&format!("{:x}", i), if i % 3 == 0 { s } else { f })).collect();
            let root = b.put(dir(&links));
            walk(&b, root)
        }
        // lookups
        32 => {
            let mut b = Blocks::default();
            let mut at = b.put(shard(&[]));
            for i in 0..n {
                at = b.put(shard(&[link("AA", at), link(&format!("ABf{:x}", i), 0)]));
            }
            let owned = rng.bool();
            lookup(&b, at, "not there", owned)
        }
        33 => {
            let mut b = Blocks::default();
            let l = b.put(leaf(1));
            let links: Vec<Link> = (0..n)
                .map(|i| {
                    let d = b.put(shard(&[link(&format!("AAf{:x}", i), l)]));
                    link(&format!("{:02X}", i % 256), d)
                })
                .collect();
            let root = b.put(shard(&links));
            let owned = rng.bool();
            lookup(&b, root, "not there", owned)
        }
        34 | 35 => {
            let mut b = Blocks::default();
            let links: Vec<Link> = (0..8 * n)
                .map(|i| link(&if kind == 34 { format!("{:02X}{:x}", i % 256, i) } else { format!("{:x}", i) }, 0))
                .collect();
            let at = b.put(if kind == 34 { shard(&links) } else { dir(&links) });
            let name = *rng.pick(&["not there", "1", "fff"]);
            lookup(&b, at, name, false)
        }
        36 => {
            // a tree of buckets
            let mut b = Blocks::default();
            let l = b.put(leaf(1));
            let mut level: Vec<usize> = (0..n).map(|i| b.put(shard(&[link(&format!("AAf{:x}", i), l)]))).collect();
            let k = rng.usize(2, 9);
            while level.len() > 1 {
                level = level
                    .chunks(k)
                    .map(|c| {
                        let links: Vec<Link> = c.iter().enumerate().map(|(i, x)| link(&format!("{:02X}", i), *x)).collect();
                        b.put(shard(&links))
                    })
                    .collect();
            }
            lookup(&b, level[0], "not there", false)
        }
        // parsing and writing
        37 => {
            let kids: Vec<(usize, u64)> = (0..n).map(|i| (i, 3)).collect();
            both_ways(&branch(&kids).0)
        }
        38 => {
            let links: Vec<Link> = (0..n).map(|i| link(&format!("{}", i), i)).collect();
            both_ways(&dir(&links))
        }
        39 => {
            // content, unknown fields
            let mut m = leaf(10 * n);
            for _ in 0..n {
                m.extend_from_slice(&[0x7a, 2, 1, 1]);
            }
            both_ways(&m)
        }
        // long names and targets
        40 => {
            let mut b = Blocks::default();
            let mut m = Msg::of(pbo::SYMLINK);
            m.data = Some(vec![b'/'; 10 * n]);
            let s = b.put(pbo::enc_block(&[], &m));
            let name = "é".repeat(5 * n);
            let d = b.put(dir(&[link(&name, s), link("z", s)]));
            let h = b.put(shard(&[link(&format!("AA{}", name), s), link("ABz", d)]));
            let r = b.put(dir(&[link("a", d), link("b", h)]));
            walk(&b, r) + lookup(&b, d, &name, false) + lookup(&b, h, &name, true)
        }
        41 => {
            let target = "x/".repeat(5 * n);
            metered(|| {
                let mut out = Vec::new();
                unixfs_v1::symlink::serialize_symlink_block(&target, &mut out);
                out.len() as u64
            })
        }
        42 => {
            let paths = [
                format!("a/{}", "é".repeat(5 * n)),
                "b".repeat(10 * n),
                format!("{}/b", "b".repeat(10 * n)),
                format!("{}/", "c".repeat(10 * n)),
            ];
            build(rng, &paths, &[])
        }
        // refused only at the end of a path of many segments
        43 => {
            let long = "a/".repeat(n / 8);
            let tails = ["b", "b", "b/c", "/b", "", "c/", "c"];
            let paths: Vec<String> = tails.iter().map(|t| format!("{}{}", long, t)).collect();
            build(rng, &paths, &[long.trim_end_matches('/').to_string(), paths[0].clone()])
        }
        // shards in directories in shards
        44 => {
            let mut b = Blocks::default();
            let l = b.put(leaf(4));
            let mut level: Vec<usize> = (0..n / 4).map(|_| b.put(dir(&[link("f", l)]))).collect();
            let k = rng.usize(2, 9);
            let mut h = 0;
            while level.len() > 1 {
                h += 1;
                level = level
                    .chunks(k)
                    .map(|c| {
                        let pre = if h % 2 == 1 { "AB" } else { "" };
                        let links: Vec<Link> = c.iter().enumerate().map(|(i, x)| link(&format!("{}n{}", pre, i), *x)).collect();
                        b.put(if h % 2 == 1 { shard(&links) } else { dir(&links) })
                    })
                    .collect();
            }
            walk(&b, level[0])
        }
        // one lookup after the other
        45 => {
            let mut b = Blocks::default();
            let l = b.put(leaf(4));
            let buckets: Vec<Link> = (0..16)
                .map(|i| {
                    let x = b.put(shard(&[link(&format!("AAf{:x}", i), l)]));
                    link(&format!("{:02X}", i), x)
                })
                .collect();
            let root = b.put(shard(&buckets));
            metered(|| {
                let mut cache = None;
                let mut found = 0;
                for i in 0..n / 16 {
                    let name = format!("f{:x}", i % 32);
                    let mut at = unixfs_v1::dir::resolve(&b.0[root], &name, &mut cache).expect("well-formed");
                    while let MaybeResolved::NeedToLoadMore(l) = at {
                        let block = b.of(l.pending_links().0);
                        at = l.continue_walk(block, &mut cache).expect("well-formed");
                    }
                    found += matches!(at, MaybeResolved::Found(_)) as u64;
                }
                found
            })
        }
        // many small files after a large one, with its cache
        47 => {
            let mut b = Blocks::default();
            let (big, _) = file(rng, &mut b, 0, n / 2);
            let (small, _) = file(rng, &mut b, 0, 3);
            let mut cache = None;
            let first = n as u64 / 4;
            metered(|| {
                let mut v = visit_with(&b, big, Some(first..first + 1), &mut cache);
                v += visit_with(&b, big, None, &mut cache);
                for _ in 0..n / 8 {
                    v += visit_with(&b, small, None, &mut cache);
                }
                v
            })
        }
        // many links pending while others are found
        48 | 49 => {
            let mut b = Blocks::default();
            let twigs = rng.usize(1, 3);
            let kids: Vec<(usize, u64)> = (0..n / 4)
                .map(|_| {
                    let kids: Vec<_> = (0..twigs).map(|_| (b.put(leaf(1)), 1)).collect();
                    let (x, s) = branch(&kids);
                    (b.put(x), s)
                })
                .collect();
            let (x, s) = branch(&kids);
            let root = b.put(x);
            if kind == 48 {
                visit(&b, root, Some(0..s - 1))
            } else {
                let root = b.put(dir(&[link("a", root), link("b", root)]));
                walk(&b, root)
            }
        }
        50 => {
            let mut b = Blocks::default();
            let l = b.put(leaf(1));
            let twigs = rng.usize(1, 3);
            let links: Vec<Link> = (0..n / 4)
                .map(|i| {
                    let kids: Vec<Link> = (0..twigs)
                        .map(|j| {
                            let d = b.put(shard(&[link(&format!("AAf{:x}", i), l)]));
                            link(&format!("{:02X}", j), d)
                        })
                        .collect();
                    let d = b.put(shard(&kids));
                    link(&format!("{:02X}", i % 256), d)
                })
                .collect();
            let root = b.put(shard(&links));
            lookup(&b, root, "not there", false)
        }
        51 => {
            // everything at once
            let mut b = Blocks::default();
            let (f, _) = file(rng, &mut b, 2, 5);
            let links: Vec<Link> = (0..n / 8)
                .map(|i| {
                    let h = b.put(shard(&[link(&format!("AAf{:x}", i), f), link("ABz", f)]));
                    let d = b.put(dir(&[link("f", f), link("g", h)]));
                    let s = b.put(shard(&[link("AA", h), link("ABx", d)]));
                    link(&format!("{:x}", i), if i % 2 == 0 { s } else { d })
                })
                .collect();
            let root = b.put(dir(&links));
            walk(&b, root)
        }
        // large blocks before and after many small ones
        52 => {
            let wide = rng.bool();
            let mut paths: Vec<String> = (0..n / 2).map(|i| format!("b{}/f", i)).collect();
            for large in ["a", "c"] {
                if wide {
                    paths.extend((0..n / 8).map(|i| format!("{}/{:0200}", large, i)));
                } else {
                    paths.push(format!("{}/{}", large, "x".repeat(100 * n)));
                }
            }
            build(rng, &paths, &[])
        }
        53 | 55 => {
            // with one walker, or each with its own and the cache of the one before
            let mut b = Blocks::default();
            let (small, _) = file(rng, &mut b, 0, 3);
            let kids: Vec<_> = (0..n / 4).map(|_| (small, 3)).collect();
            let l = b.put(leaf(3));
            let large = match rng.below(3) {
                0 => {
                    let kids: Vec<_> = kids.iter().map(|k| (l, k.1)).collect();
                    b.put(branch(&kids).0)
                }
                1 => b.put(dir(&kids.iter().enumerate().map(|(i, k)| link(&format!("{:x}", i), k.0)).collect::<Vec<_>>())),
                _ => b.put(shard(&kids.iter().enumerate().map(|(i, k)| link(&format!("AA{:x}", i), k.0)).collect::<Vec<_>>())),
            };
            let leafy = b.put(dir(&[link("f", small)]));
            let at = *rng.pick(&[0, n / 8, n / 4 - 1]);
            let roots: Vec<usize> = (0..n / 4).map(|i| if i == at { large } else { leafy }).collect();
            if kind == 53 {
                let links: Vec<Link> = roots.iter().enumerate().map(|(i, r)| link(&format!("{:x}", i), *r)).collect();
                let root = b.put(dir(&links));
                return walk(&b, root);
            }
            metered(|| {
                let mut cache = None;
                roots.iter().map(|r| walk_with(&b, *r, &mut cache)).sum()
            })
        }
        // small directories after a large one, with its cache
        54 => {
            let mut b = Blocks::default();
            let l = b.put(leaf(4));
            let empty = b.put(shard(&[]));
            let many: Vec<Link> = (0..n / 4).map(|i| link(&format!("{:02X}", i % 256), empty)).collect();
            let few = b.put(shard(&[link("AA", empty), link("ABf", l), link("AC", empty)]));
            let large = b.put(shard(&many));
            metered(|| {
                let mut cache = None;
                let mut v = lookup_with(&b, large, "f", false, &mut cache);
                for i in 0..n / 4 {
                    v += lookup_with(&b, few, if i % 2 == 0 { "f" } else { "g" }, i % 3 == 0, &mut cache);
                }
                v
            })
        }
        // the usual sizes
        _ => {
            let data = vec![7; 60 * n];
            let mut adder = FileAdder::default();
            metered(|| {
                let mut at = 0;
                let mut blocks = 0;
                while at < data.len() {
                    let end = (at + 10_000).min(data.len());
                    let (it, used) = adder.push(&data[at..end]);
                    blocks += it.count();
                    at += used;
                }
                (blocks + adder.finish().count()) as u64
            })
        }
    }
}

fn both_ways(block: &[u8]) -> u64 {
    use std::convert::TryFrom;
    metered(|| {
        let f = unixfs_v1::FlatUnixFs::try_from(block).expect("well-formed");
        let mut out = Vec::new();
        let mut w = quick_protobuf::Writer::new(&mut out);
        quick_protobuf::MessageWrite::write_message(&f, &mut w).expect("into memory");
        let n = out.len() as u64;
        let d = unixfs_v1::dagpb::node_data(block).expect("well-formed").map(|d| d.len()).unwrap_or(0);
        let w = unixfs_v1::dagpb::wrap_node_data(block).expect("well-formed");
        n + d as u64 + (w.node_data() == block) as u64
    })
}

fn build(rng: &mut Rng, paths: &[String], dirs: &[String]) -> u64 {
    let mut o = TreeOptions::default();
    o.block_size_limit(None);
    o.wrap_with_directory();
    let owned = rng.bool() && paths.iter().all(|p| p.len() < 100);
    let cid = cid_from(&cid_no(3));
    let metas: Vec<unixfs_v1::Metadata> = dirs.iter().map(|_| Default::default()).collect();
    metered(|| {
        let mut b = BufferingTreeBuilder::new(o);
        for p in paths {
            let _ = b.put_link(p, cid.clone(), 5);
        }
        for (p, m) in dirs.iter().zip(metas) {
            let _ = b.set_metadata(p, m);
        }
        let mut it = b.build();
        let mut n = 0;
        loop {
            if owned {
                match it.next() {
                    Some(r) => n += r.expect("no limit").block.len(),
                    None => break,
                }
            } else {
                match it.next_borrowed() {
                    Some(r) => n += r.expect("no limit").block.len(),
                    None => break,
                }
            }
        }
        n as u64
    })
}

// ---- the verdict -------------------------------------------------------------------------------

pub fn child(a: &[String]) -> i32 {
    let num = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let (kind, seed, n) = (num(0), num(1), num(2) as usize);
    if request(RUNNING) == 0 {
        eprintln!("not counted");
        return 4;
    }
    let out = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || perform(kind, seed, n))
        .expect("spawn")
        .join();
    match out {
        Ok(x) => {
            println!("result {}", x);
            0
        }
        Err(_) => 5,
    }
}

/// The instructions it takes.
fn count(kind: u64, seed: u64, n: usize) -> Result<u64, Fail> {
    use std::os::unix::process::CommandExt;
    let me = std::env::current_exe().expect("the path of the monitors");
    let mut cmd = std::process::Command::new("valgrind");
    cmd.args(["--tool=cachegrind", "--cache-sim=no", "--instr-at-start=no", "--cachegrind-out-file=/dev/null", "--vgdb=no"])
        .arg(me)
        .arg("effort")
        .args([kind, seed, n as u64].iter().map(|n| n.to_string()))
        .stdin(std::process::Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit {
                rlim_cur: 400,
                rlim_max: 400,
            };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let out = cmd.output().expect("valgrind");
    let err = String::from_utf8_lossy(&out.stderr);
    if !out.status.success() {
        use std::os::unix::process::ExitStatusExt;
        if matches!(out.status.signal(), Some(libc::SIGXCPU) | Some(libc::SIGKILL)) {
            return Err(Fail(format!("no end after 400 s of processor time, in size {}", n)));
        }
        let at = err.lines().find(|l| l.contains("panicked at")).unwrap_or("");
        if out.status.code() == Some(5) && !at.contains("panicked at src/") {
            return Err(Fail(format!("{}", err.lines().filter(|l| !l.starts_with("==")).collect::<Vec<_>>().join(" | "))));
        }
        panic!("size {} is not measured: {:?} {}", n, out.status, err);
    }
    let refs = err.lines().find_map(|l| l.split("I refs:").nth(1)).expect("the count of instructions");
    Ok(refs.trim().replace(',', "").parse().expect("a number"))
}

fn x08(c: &mut Case) -> R {
    // the last ones once more, some other way
    let kind = match c.idx % (KINDS + 10) {
        k if k < KINDS => k,
        k => [0, 1, 8, 11, 16, 19, 22, 36, 44, 48][(k - KINDS) as usize],
    };
    let seed = c.rng.clone().next();
    let top = size_of(kind) * if c.thorough() { 4 } else { 1 };
    c.describe(|| format!("way {} of {} in sizes up to {}", kind, name_of(kind), top));
    c.counts(fp2(kind, seed));
    // from the small ones, so that work which grows quickly is noticed while it can be waited for
    let mut seen: Vec<(usize, u64)> = Vec::new();
    let mut before = 0.0;
    for i in (0..5).rev() {
        let n = top >> i;
        let w = count(kind, seed, n)?;
        c.describe(|| format!("size {}: {} instructions", n, w));
        c.add("runs measured", 1);
        c.add(name_of(kind), w);
        seen.push((n, w));
        if let [.., x, y, z] = &seen[..] {
            let (first, second) = (y.1.saturating_sub(x.1), z.1.saturating_sub(y.1));
            let ratio = second as f64 / first.max(1) as f64;
            if kind != 27 && second > 1_000_000 {
                c.max("most growth from one step to the next, percent", (100.0 * ratio) as u64);
            }
            let steep = second > 1_000_000 && ratio > most(kind);
            // a table made larger is not growth: it goes on, or shows over all of the sizes
            let again = before > 0.85 * most(kind);
            let overall = second as f64 / (seen[1].1.saturating_sub(seen[0].1)).max(1) as f64;
            let enough = (most(kind) / 3.0).powi(3) * 12.0;
            before = ratio;
            if steep && (again || i == 0 && overall > enough) {
                return Err(Fail(format!(
                    "the {} grow faster than what is handled: {:?} (size, instructions), way {}",
                    &name_of(kind)["instructions of ".len()..],
                    seen,
                    kind
                )));
            }
        }
    }
    Ok(())
}
