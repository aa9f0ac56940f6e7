//! D05 and X06: lookups in directories with defects, and what errors say.

use super::{Prop, EXPLORED, ORACLE};
use crate::drive::{cid_from, lend};
use crate::model::{self, Ink, Store};
use crate::pbo::{self, Link, Msg};
use crate::util::{self, fp, fp2, hexs, Rng};
use crate::{ensure, same, Case, Fail, R};
use std::collections::VecDeque;
use std::convert::TryFrom;
use std::error::Error as _;
use unixfs_v1::dir::builder::{
    BufferingTreeBuilder, TreeConstructionFailed, TreeOptions,
};
use unixfs_v1::dir::{self, MaybeResolved, MultipleMatchingLinks, ShardError};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::file::{FileError, FileReadFailed};
use unixfs_v1::walk::{self, Walker};
use unixfs_v1::{FlatUnixFs, LookupError, ResolveError};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "D05",
        title: "A lookup reports the first defect of a sharded directory",
        run: d05,
        quick: 60000,
        rule: "random graphs of up to 7 blocks, mostly shards, whose bucket links form any graph (shared, repeated, circular) and whose names are drawn from few, with broken identifiers, duplicate entries, unsupported properties, other types and unreadable blocks; followed for up to 24 steps against the reference; counted when more than one block was supplied or a defect was met",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "X06",
        title: "Errors say what is wrong and keep its cause",
        run: x06,
        quick: 60000,
        rule: "one defect of a known kind and known values is made in a block which is then visited, walked, resolved, looked up in, parsed or built; kind, values, text and cause of the error are compared; counted when an error was judged",
        assumptions: &[ORACLE, EXPLORED],
    },
];

// ---- D05 ---------------------------------------------------------------------------------------

/// What one block does to a lookup.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Step {
    Found(Vec<u8>),
    /// Nothing in here; the buckets to go on with.
    On(Vec<Vec<u8>>),
    Two((usize, Vec<u8>), (usize, Vec<u8>)),
    OneValid((usize, Vec<u8>), (usize, String, Vec<u8>)),
    Broken(usize, String, Vec<u8>),
    Unsupported(Option<u64>, Option<u64>),
    Unexpected(Option<u64>, Vec<u64>),
    OtherType(u64),
    Unreadable,
    NoData,
    Other(String),
}

fn valid(h: &[u8]) -> bool {
    libipld::Cid::try_from(h).is_ok()
}

/// Everything a lookup may do with the block: more than one when there is more than one defect.
fn allowed(block: &[u8], needle: &str) -> Vec<Step> {
    let (n, _) = match pbo::dec_node(block) {
        Ok(x) => x,
        Err(_) => return vec![Step::Unreadable],
    };
    let data = match n.data.as_deref() {
        None | Some([]) => return vec![Step::NoData],
        Some(d) => d,
    };
    let m = match pbo::dec_msg(data) {
        Ok(m) => m,
        Err(_) => return vec![Step::Unreadable],
    };
    let ty = m.ty.unwrap_or(pbo::RAW);
    if ty != pbo::HAMT {
        return vec![Step::OtherType(ty)];
    }
    let mut out = Vec::new();
    if m.hash_type != Some(34) || m.fanout != Some(256) {
        out.push(Step::Unsupported(m.hash_type, m.fanout));
    }
    if m.filesize.is_some() || !m.blocksizes.is_empty() {
        out.push(Step::Unexpected(m.filesize, m.blocksizes.clone()));
    }
    if !out.is_empty() {
        return out;
    }
    let broken = |i: usize| {
        let l: &Link = &n.links[i];
        Step::Broken(i, l.name_str().to_string(), l.hash_bytes().to_vec())
    };
    let mut buckets = Vec::new();
    let mut matches = Vec::new();
    for (i, l) in n.links.iter().enumerate() {
        let name = l.name_str();
        if name.len() == 2 {
            if valid(l.hash_bytes()) {
                buckets.push(l.hash_bytes().to_vec());
            } else {
                out.push(broken(i));
            }
        } else if name.is_char_boundary(2) && name.len() > 2 && &name[2..] == needle {
            matches.push(i);
        }
    }
    let bucket_defects = !out.is_empty();
    match matches[..] {
        [] => {
            if !bucket_defects {
                out.push(Step::On(buckets));
            }
        }
        [a, ..] if !valid(n.links[a].hash_bytes()) => out.push(broken(a)),
        // a broken bucket link beside it is not needed any more
        [a] => out.push(Step::Found(n.links[a].hash_bytes().to_vec())),
        [a, b, ..] => {
            let h = n.links[b].hash_bytes();
            let first = (a, n.links[a].hash_bytes().to_vec());
            out.push(if valid(h) {
                Step::Two(first, (b, h.to_vec()))
            } else {
                Step::OneValid(first, (b, n.links[b].name_str().to_string(), h.to_vec()))
            });
        }
    }
    out
}

fn of_multiple(e: &MultipleMatchingLinks) -> Step {
    match e {
        MultipleMatchingLinks::Two { first, second } => Step::Two(
            (first.0, first.1.to_bytes()),
            (second.0, second.1.to_bytes()),
        ),
        MultipleMatchingLinks::OneValid { first, second } => Step::OneValid(
            (first.0, first.1.to_bytes()),
            (second.nth, second.name.to_string(), second.hash.to_vec()),
        ),
    }
}

/// The type, as far as it can be asked for.
fn same_type(u: &unixfs_v1::UnexpectedNodeType, ty: u64) -> bool {
    u.is_file() == (ty == pbo::FILE)
        && u.is_directory() == (ty == pbo::DIR || ty == pbo::HAMT)
        && format!("{:?}", u).contains(&ty.to_string())
}

fn of_lookup_error(e: &LookupError, allowed: &[Step]) -> Step {
    match e {
        LookupError::Multiple(m) => of_multiple(m),
        LookupError::InvalidCid(b) => Step::Broken(b.nth, b.name.to_string(), b.hash.to_vec()),
        LookupError::UnexpectedBucketType(u) => match allowed {
            [Step::OtherType(t)] if same_type(u, *t) => Step::OtherType(*t),
            _ => Step::Other(format!("{:?}", e)),
        },
        LookupError::Shard(ShardError::UnsupportedProperties { hash_type, fanout }) => {
            Step::Unsupported(*hash_type, *fanout)
        }
        LookupError::Shard(ShardError::UnexpectedProperties { filesize, blocksizes }) => {
            Step::Unexpected(*filesize, blocksizes.clone())
        }
        LookupError::Read(Some(_)) => Step::Unreadable,
        LookupError::Read(None) => Step::NoData,
    }
}

fn some_cid(rng: &mut Rng) -> Vec<u8> {
    let b = rng.bytes(8);
    util::cid_styled(&b, rng.below(util::STYLES) as u8)
}

fn no_cid(rng: &mut Rng) -> Option<Vec<u8>> {
    match rng.below(5) {
        0 => None,
        1 => Some(Vec::new()),
        2 => Some(vec![0x01]),
        3 => {
            let c = util::cid_of(&rng.bytes(4));
            let n = rng.usize(0, c.len() - 1);
            Some(c[..n].to_vec())
        }
        _ => Some(vec![0x02, 0x70, 0x12, 0x20, 1, 2, 3]),
    }
}

/// Two bytes in front of a name or all of a bucket's, and what is like them but is not.
fn bucket_name(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => "é".into(),
        1 => "..".into(),
        2 => "  ".into(),
        3 => "ff".into(),
        4 => "00".into(),
        _ => format!("{:02X}", rng.below(256)),
    }
}

fn shard_link_name(rng: &mut Rng, pool: &[String], buckets: bool) -> String {
    match rng.below(16) {
        0..=5 if buckets => bucket_name(rng),
        6 => pool[rng.idx(pool.len())].clone(),
        // the prefix ends inside of a character
        7 => format!("€{}", rng.pick(pool)),
        8 => format!("F€{}", rng.pick(pool)),
        9 => match rng.below(3) {
            0 => String::new(),
            1 => "F".into(),
            _ => "€".into(),
        },
        10 => {
            let n = rng.pick(pool).clone();
            format!("{}{}", bucket_name(rng), model::variant(rng, &n))
        }
        _ => format!("{}{}", bucket_name(rng), rng.pick(pool)),
    }
}

fn d05(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let pool: Vec<String> = (0..rng.usize(1, 4)).map(|_| model::name(rng)).collect();
    let count = rng.usize(1, 7);
    let ids: Vec<Vec<u8>> = (0..count).map(|_| some_cid(rng)).collect();
    let mut store = Store::default();
    let ink = Ink::random(rng);
    // how likely things are to go wrong
    let defects = *rng.pick(&[0, 0, 30, 12, 6, 3]);
    let entries = *rng.pick(&[0, 1, 2, 4]);
    for (at, id) in ids.iter().enumerate() {
        let mut links = Vec::new();
        let n = if rng.one_in(20) { rng.usize(20, 60) } else { rng.idx(7) };
        for _ in 0..n {
            let mut name = shard_link_name(rng, &pool, true);
            if name.len() != 2 && rng.idx(4) >= entries {
                name = if rng.bool() { bucket_name(rng) } else { format!("{}surely another", bucket_name(rng)) };
            }
            let bucket = name.len() == 2;
            let target = if bucket {
                ids[rng.idx(ids.len())].clone()
            } else if rng.bool() {
                some_cid(rng)
            } else {
                ids[0].clone()
            };
            let mut l = Link::new(&target, &name, rng.clone().wide());
            if defects > 0 && rng.one_in(defects * 2) {
                l.hash = no_cid(rng);
            }
            if name.is_empty() && rng.bool() {
                l.name = None;
            }
            if rng.one_in(6) {
                l.tsize = None;
            }
            links.push(l);
        }
        let mut m = Msg::hamt();
        if rng.bool() {
            m.data = Some(rng.bytes(4));
        }
        let bad = defects > 0 && rng.one_in(defects);
        let kind = if bad { rng.below(if at == 0 { 3 } else { 7 }) } else { 9 };
        let block = match kind {
            0 => {
                m.hash_type = *rng.pick(&[None, Some(0), Some(33), Some((1 << 32) + 34)]);
                ink.block(rng, &links, &m)
            }
            1 => {
                m.fanout = *rng.pick(&[None, Some(0), Some(255), Some(1024)]);
                if rng.bool() {
                    m.filesize = Some(rng.wide());
                }
                ink.block(rng, &links, &m)
            }
            2 => {
                if rng.bool() {
                    m.filesize = Some(rng.wide());
                }
                if m.filesize.is_none() || rng.bool() {
                    m.blocksizes = vec![rng.wide(); rng.usize(1, 3)];
                }
                ink.block(rng, &links, &m)
            }
            3 => {
                let mut m = Msg::of(*rng.pick(&[pbo::RAW, pbo::DIR, pbo::FILE, pbo::META, pbo::SYMLINK]));
                if rng.bool() {
                    m.data = Some(rng.bytes(3));
                }
                ink.block(rng, &links, &m)
            }
            4 => {
                let n = pbo::Node {
                    links,
                    data: if rng.bool() { None } else { Some(Vec::new()) },
                };
                pbo::enc_node(&n)
            }
            5 => {
                // a type which is not defined, or something cut short
                let data = if rng.bool() {
                    let mut d = Vec::new();
                    pbo::varint(&mut d, 1 << 3);
                    pbo::varint(&mut d, rng.range(6, 1000));
                    d
                } else {
                    let mut d = pbo::enc_msg(&m);
                    d.pop();
                    d
                };
                let unreadable = pbo::dec_msg(&data) == Err(pbo::Bad::Malformed);
                let block = pbo::enc_node(&pbo::Node { links, data: Some(data) });
                if unreadable {
                    block
                } else {
                    vec![0xff]
                }
            }
            6 => {
                let mut b = ink.block(rng, &links, &m);
                b.pop();
                if matches!(pbo::dec_node(&b), Err(pbo::Bad::Malformed)) {
                    b
                } else {
                    vec![0x12]
                }
            }
            _ => ink.block(rng, &links, &m),
        };
        store.map.insert(id.clone(), block);
    }

    let mut asked = pool.clone();
    asked.push("surely not there".into());
    let x = pool[rng.idx(pool.len())].clone();
    asked.push(model::variant(rng, &x));
    asked.push(if rng.bool() { String::new() } else { bucket_name(rng) });
    let mut cache = None;
    let mut key = 0;
    let (mut most, mut met) = (0, 0);
    for needle in &asked {
        let own_at = if rng.bool() { rng.usize(1, 4) } else { usize::MAX };
        let mut none = None;
        let cache = if rng.bool() { &mut cache } else { &mut none };
        let mut queue: VecDeque<Vec<u8>> = VecDeque::new();
        queue.push_back(ids[0].clone());
        let mut going: Option<dir::ShardedLookup<'_>> = None;
        for at in 0..24 {
            let id = queue.pop_front().unwrap();
            let block = store.get(&id).unwrap();
            let allowed = allowed(block, needle);
            let ctx = || {
                format!(
                    "looking up {:?}, block {} of the lookup: {}",
                    needle,
                    at,
                    hexs(block)
                )
            };
            let lent = lend(block);
            let (step, next) = match going.take() {
                None => match unixfs_v1::resolve(&lent, needle, cache) {
                    Ok(MaybeResolved::Found(t)) => (Step::Found(t.to_bytes()), None),
                    Ok(MaybeResolved::NotFound) => (Step::On(Vec::new()), None),
                    Ok(MaybeResolved::NeedToLoadMore(l)) => (Step::On(Vec::new()), Some(l)),
                    Err(ResolveError::Lookup(e)) => (of_lookup_error(&e, &allowed), None),
                    Err(e) => (Step::Other(format!("{:?}", e)), None),
                },
                Some(mut l) => {
                    if at == own_at {
                        l = l.with_owned_needle();
                    }
                    match l.continue_walk(&lent, cache) {
                        Ok(MaybeResolved::Found(t)) => (Step::Found(t.to_bytes()), None),
                        Ok(MaybeResolved::NotFound) => (Step::On(Vec::new()), None),
                        Ok(MaybeResolved::NeedToLoadMore(l)) => (Step::On(Vec::new()), Some(l)),
                        Err(e) => (of_lookup_error(&e, &allowed), None),
                    }
                }
            };
            drop(lent);
            key = fp2(key, at as u64);
            most = most.max(at + 1);
            if let Step::On(_) = step {
                let new = match &allowed[..] {
                    [Step::On(b)] => b,
                    _ => return Err(Fail(format!("{}: goes on, expected {:?}", ctx(), allowed))),
                };
                queue.extend(new.iter().cloned());
                match next {
                    Some(l) => {
                        let (first, rest) = l.pending_links();
                        let got: Vec<Vec<u8>> = std::iter::once(first).chain(rest).map(|c| c.to_bytes()).collect();
                        ensure!(
                            queue.iter().eq(got.iter()),
                            "{}: {} blocks are announced, expected {}: {:?} instead of {:?}",
                            ctx(),
                            got.len(),
                            queue.len(),
                            got.iter().map(|b| model::tail(b)).collect::<Vec<_>>(),
                            queue.iter().map(|b| model::tail(b)).collect::<Vec<_>>()
                        );
                        going = Some(l);
                        continue;
                    }
                    None => {
                        ensure!(
                            queue.is_empty(),
                            "{}: not found with {} buckets to go",
                            ctx(),
                            queue.len()
                        );
                        c.add("not found", 1);
                        break;
                    }
                }
            }
            ensure!(
                allowed.contains(&step),
                "{}: ends with {:?}, expected {:?}",
                ctx(),
                step,
                allowed
            );
            let what = match &step {
                Step::Found(_) => "found",
                Step::Two(..) => "two matches",
                Step::OneValid(..) => "two matches, the second broken",
                Step::Broken(..) => "broken links",
                Step::Unsupported(..) => "unsupported properties",
                Step::Unexpected(..) => "unexpected properties",
                Step::OtherType(_) => "other types",
                Step::Unreadable => "unreadable blocks",
                Step::NoData => "blocks without data",
                _ => "other",
            };
            c.add(what, 1);
            if !matches!(step, Step::Found(_)) {
                met += 1;
                if at > 0 {
                    c.add("defects below the first block", 1);
                }
            }
            break;
        }
        c.add("lookups", 1);
    }
    c.max("most blocks supplied", most as u64);
    c.describe(|| {
        format!(
            "{} blocks, names {:?}, root {}",
            count,
            pool,
            hexs(store.get(&ids[0]).unwrap())
        )
    });
    if most > 1 || met > 0 {
        c.counts(fp2(key, fp(store.get(&ids[0]).unwrap())));
    }
    Ok(())
}

// ---- X06 ---------------------------------------------------------------------------------------

/// An error, as far as all of them can be looked at alike.
struct Said {
    debug: String,
    text: String,
    /// What `source()` says, where there is one.
    cause: Option<String>,
    /// The same, for debugging.
    cause_debug: String,
}

impl Said {
    fn of(e: &(dyn std::error::Error + 'static)) -> Said {
        Said {
            debug: format!("{:?}", e),
            text: e.to_string(),
            cause: e.source().map(|s| s.to_string()),
            cause_debug: e.source().map(|s| format!("{:?}", s)).unwrap_or_default(),
        }
    }
}

fn expect(s: &Said, who: &str, starts: &[&str], has: &[String], cause: bool) -> R {
    ensure!(
        starts.iter().any(|x| s.debug.starts_with(x)),
        "{}: the error is {:?}, expected one of {:?}",
        who,
        s.debug,
        starts
    );
    ensure!(!s.text.trim().is_empty(), "{}: {} has no text", who, s.debug);
    for h in has {
        ensure!(
            s.text.contains(h.as_str()),
            "{}: the text {:?} of {} does not tell {:?}",
            who,
            s.text,
            s.debug,
            h
        );
    }
    ensure!(
        s.cause.is_some() == cause,
        "{}: the source of {} is {:?}",
        who,
        s.debug,
        s.cause
    );
    if let Some(x) = &s.cause {
        ensure!(
            s.text.contains(x.as_str()) || s.text.contains(&s.cause_debug),
            "{}: the text {:?} does not tell the cause {:?}",
            who,
            s.text,
            x
        );
    }
    Ok(())
}

fn must_fail<T>(r: Result<T, Fail>, who: &str) -> Result<T, Fail> {
    r.map_err(|_| Fail(format!("{}: ends without an error", who)))
}

fn visit_start(block: &[u8]) -> Result<FileReadFailed, Fail> {
    match IdleFileVisit::default().start(block) {
        Ok(_) => Err(Fail(String::new())),
        Err(e) => Ok(e),
    }
}

fn walk_start(block: &[u8]) -> Result<walk::Error, Fail> {
    let mut w = Walker::new(cid_from(&util::cid_of(b"root")), "root".into());
    let r = w.next(block, &mut None);
    match r {
        Ok(_) => Err(Fail(String::new())),
        Err(e) => Ok(e),
    }
}

fn resolve_in(block: &[u8], name: &str) -> Result<ResolveError, Fail> {
    match unixfs_v1::resolve(block, name, &mut None) {
        Ok(_) => Err(Fail(String::new())),
        Err(e) => Ok(e),
    }
}

/// Supplies the block as the only bucket of a shard.
fn as_bucket(block: &[u8], name: &str) -> Result<LookupError, Fail> {
    let root = pbo::enc_block(&[Link::new(&util::cid_of(b"bucket"), "0A", 1)], &Msg::hamt());
    match unixfs_v1::resolve(&root, name, &mut None) {
        Ok(MaybeResolved::NeedToLoadMore(l)) => match l.continue_walk(block, &mut None) {
            Ok(_) => Err(Fail(String::new())),
            Err(e) => Ok(e),
        },
        other => Err(Fail(format!("a shard with one bucket gives {:?}", other))),
    }
}

/// Supplies the block as the only child of a file; the error of the visit and that of the walk.
fn as_child(block: &[u8], size: u64) -> Result<(FileReadFailed, walk::Error), Fail> {
    let mut m = Msg::of(pbo::FILE);
    m.filesize = Some(size);
    m.blocksizes = vec![size];
    let root = pbo::enc_block(&[Link::new(&util::cid_of(b"child"), "", 1)], &m);
    let v = match IdleFileVisit::default().start(&root) {
        Ok((_, _, _, Some(v))) => v,
        other => return Err(Fail(format!("a file with one link gives {:?}", other))),
    };
    let a = match v.continue_walk(block, &mut None) {
        Ok(_) => return Err(Fail(String::new())),
        Err(e) => e,
    };
    let mut w = Walker::new(cid_from(&util::cid_of(b"root")), String::new());
    if let Err(e) = w.next(&root, &mut None) {
        return Err(Fail(format!("a file with one link gives {:?}", e)));
    }
    let r = w.next(block, &mut None);
    let b = match r {
        Ok(_) => return Err(Fail(String::new())),
        Err(e) => e,
    };
    Ok((a, b))
}

fn number(rng: &mut Rng) -> u64 {
    1_000_000_007 + rng.below(8_000_000_000)
}

const NAMES: &[&str] = &["Raw", "Directory", "File", "Metadata", "Symlink", "HAMTShard"];

fn x06(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let links: Vec<Link> = (0..rng.idx(4))
        .map(|i| {
            let h = some_cid(rng);
            Link::new(&h, &format!("0{}name", i), 1)
        })
        .collect();
    let none: &[String] = &[];
    const KINDS: u64 = 11;
    let kind = c.idx % KINDS;
    let label: &'static str;
    let mut key = 0;
    match kind {
        0 | 1 => {
            // not dag-pb, or not UnixFS inside
            let outer = kind == 0;
            label = if outer { "not dag-pb" } else { "not UnixFS" };
            let m = if rng.bool() { Msg::hamt() } else { Msg::of(pbo::FILE) };
            let block = loop {
                if outer {
                    let mut b = match rng.below(3) {
                        0 => {
                            let n = rng.usize(1, 30);
                            rng.bytes(n)
                        }
                        _ => pbo::enc_block(&links, &m),
                    };
                    if rng.bool() {
                        b.truncate(rng.usize(1, b.len()));
                    }
                    if matches!(pbo::dec_node(&b), Err(pbo::Bad::Malformed)) {
                        break b;
                    }
                } else {
                    let mut d = match rng.below(3) {
                        0 => {
                            let n = rng.usize(1, 30);
                            rng.bytes(n)
                        }
                        1 => vec![0x08, rng.range(6, 0x7f) as u8],
                        _ => {
                            let mut m = m.clone();
                            m.data = Some(rng.bytes(9));
                            pbo::enc_msg(&m)
                        }
                    };
                    if rng.bool() {
                        d.truncate(rng.usize(1, d.len()));
                    }
                    if matches!(pbo::dec_msg(&d), Err(pbo::Bad::Malformed)) {
                        break pbo::enc_node(&pbo::Node {
                            links: links.clone(),
                            data: Some(d),
                        });
                    }
                }
            };
            key = fp(&block);
            c.describe(|| format!("{}: {}", label, hexs(&block)));
            let e = must_fail(visit_start(&block), "a visit")?;
            expect(&Said::of(&e), "a visit", &["Read(Some("], none, true)?;
            let e = must_fail(walk_start(&block), "a walk")?;
            let want = if outer { "DagPbParsingFailed(" } else { "UnixFsParsingFailed(" };
            let said = Said::of(&e);
            expect(&said, "a walk", &[want], none, true)?;
            match &e {
                walk::Error::DagPbParsingFailed(i) | walk::Error::UnixFsParsingFailed(i) => {
                    ensure!(said.text.contains(&i.to_string()), "the text {:?} does not tell {:?}", said.text, i);
                }
                _ => (),
            }
            let e = must_fail(as_bucket(&block, "name"), "a lookup")?;
            expect(&Said::of(&e), "a lookup", &["Read(Some("], none, true)?;
            let inner = format!("{:?}", e);
            let general = e.into_resolve_error();
            expect(&Said::of(&general), "a lookup, as the general error", &["Lookup(Read(Some("], none, true)?;
            same!(format!("{:?}", general), format!("Lookup({})", inner), "into_resolve_error()");
            let (a, b) = must_fail(as_child(&block, 9), "the child of a file")?;
            expect(&Said::of(&a), "a visited child", &["Read(Some("], none, true)?;
            expect(
                &Said::of(&b),
                "a walked child",
                &["DagPbParsingFailed(", "UnixFsParsingFailed("],
                none,
                true,
            )?;
            if outer {
                let e = must_fail(resolve_in(&block, "name"), "resolving")?;
                expect(&Said::of(&e), "resolving", &["Read("], none, true)?;
                ensure!(unixfs_v1::dagpb::node_data(&block).is_err(), "node_data() of what is not dag-pb");
                ensure!(
                    unixfs_v1::dagpb::wrap_node_data(&block[..]).is_err(),
                    "wrap_node_data() of what is not dag-pb"
                );
            }
            let e = match FlatUnixFs::try_from(&block[..]) {
                Ok(_) => return Err(Fail(format!("parsing {} gives no error", hexs(&block)))),
                Err(e) => e,
            };
            let want = if outer { "InvalidDagPb(" } else { "InvalidUnixFs(" };
            let (debug, text) = (format!("{:?}", e), e.to_string());
            ensure!(debug.starts_with(want), "parsing {} gives {}", hexs(&block), debug);
            match e.source() {
                Some(s) => ensure!(text.contains(&s.to_string()), "{:?} does not tell {:?}", text, s.to_string()),
                None => return Err(Fail(format!("{} has no source", debug))),
            }
        }
        2 => {
            label = "no UnixFS data";
            let block = pbo::enc_node(&pbo::Node {
                links: links.clone(),
                data: if rng.bool() { None } else { Some(Vec::new()) },
            });
            key = fp(&block);
            c.describe(|| format!("{}: {}", label, hexs(&block)));
            let e = must_fail(visit_start(&block), "a visit")?;
            expect(&Said::of(&e), "a visit", &["Read(None"], none, false)?;
            let e = must_fail(walk_start(&block), "a walk")?;
            expect(&Said::of(&e), "a walk", &["EmptyDagPbNode"], none, false)?;
            let e = must_fail(as_bucket(&block, "name"), "a lookup")?;
            expect(&Said::of(&e), "a lookup", &["Read(None"], none, false)?;
            let e = e.into_resolve_error();
            expect(&Said::of(&e), "a lookup, as the general error", &["Lookup(Read(None"], none, false)?;
            let (a, b) = must_fail(as_child(&block, 9), "the child of a file")?;
            expect(&Said::of(&a), "a visited child", &["Read(None"], none, false)?;
            expect(&Said::of(&b), "a walked child", &["EmptyDagPbNode"], none, false)?;
            let e = match FlatUnixFs::try_from(&block[..]) {
                Ok(_) => return Err(Fail(format!("parsing {} gives no error", hexs(&block)))),
                Err(e) => e,
            };
            let debug = format!("{:?}", e);
            ensure!(
                debug.starts_with("NoData(") && e.source().is_none() && !e.to_string().is_empty(),
                "parsing {} gives {}",
                hexs(&block),
                debug
            );
        }
        3 => {
            label = "unexpected type";
            let ty = rng.below(6);
            let name = vec![NAMES[ty as usize].to_string()];
            let mut m = if ty == pbo::HAMT { Msg::hamt() } else { Msg::of(ty) };
            if rng.bool() {
                model::Meta::random(rng).into_msg(&mut m);
            }
            let block = pbo::enc_block(&links, &m);
            key = fp(&block);
            c.describe(|| format!("{} {}: {}", label, ty, hexs(&block)));
            let file = ty == pbo::FILE || ty == pbo::RAW;
            if !file {
                let e = must_fail(visit_start(&block), "a visit")?;
                expect(&Said::of(&e), "a visit", &["UnexpectedType("], &name, false)?;
                match &e {
                    FileReadFailed::UnexpectedType(u) => ensure!(same_type(u, ty), "a visit: {:?} is not type {}", u, ty),
                    _ => (),
                }
                let mut m = m.clone();
                m.mode = None;
                m.mtime = None;
                let child = pbo::enc_block(&links, &m);
                let (a, b) = must_fail(as_child(&child, 9), "the child of a file")?;
                expect(&Said::of(&a), "a visited child", &["UnexpectedType("], &name, false)?;
                expect(&Said::of(&b), "a walked child", &["UnexpectedType("], &name, false)?;
                match (&a, &b) {
                    (FileReadFailed::UnexpectedType(a), walk::Error::UnexpectedType(b)) => ensure!(
                        same_type(a, ty) && same_type(b, ty),
                        "the child of a file: {:?} and {:?} are not type {}",
                        a,
                        b,
                        ty
                    ),
                    _ => (),
                }
            }
            if ty == pbo::META {
                let e = must_fail(walk_start(&block), "a walk")?;
                expect(&Said::of(&e), "a walk", &["UnsupportedType("], &name, false)?;
                if let walk::Error::UnsupportedType(u) = &e {
                    ensure!(same_type(u, ty), "a walk: {:?} is not type {}", u, ty);
                }
            }
            if ty != pbo::HAMT {
                let e = must_fail(as_bucket(&block, "name"), "a lookup")?;
                expect(&Said::of(&e), "a lookup", &["UnexpectedBucketType("], &name, false)?;
                if let LookupError::UnexpectedBucketType(u) = &e {
                    ensure!(same_type(u, ty), "a lookup: {:?} is not type {}", u, ty);
                }
                let e = e.into_resolve_error();
                expect(
                    &Said::of(&e),
                    "a lookup, as the general error",
                    &["Lookup(UnexpectedBucketType("],
                    &name,
                    false,
                )?;
                if ty != pbo::DIR {
                    let e = must_fail(resolve_in(&block, "name"), "resolving")?;
                    expect(&Said::of(&e), "resolving", &["UnexpectedType("], &name, false)?;
                    if let ResolveError::UnexpectedType(u) = &e {
                        ensure!(same_type(u, ty), "resolving: {:?} is not type {}", u, ty);
                    }
                }
            }
        }
        4 => {
            label = "sharding properties of a file";
            let mut m = Msg::of(if rng.bool() { pbo::FILE } else { pbo::RAW });
            m.data = Some(b"content".to_vec());
            m.filesize = Some(7);
            let mut has = Vec::new();
            let which = rng.range(1, 3);
            if which & 1 != 0 {
                m.hash_type = Some(number(rng));
                has.push(m.hash_type.unwrap().to_string());
            }
            if which & 2 != 0 {
                m.fanout = Some(number(rng));
                has.push(m.fanout.unwrap().to_string());
            }
            let block = pbo::enc_block(&[], &m);
            key = fp(&block);
            c.describe(|| format!("{}: {}", label, hexs(&block)));
            let e = must_fail(visit_start(&block), "a visit")?;
            expect(&Said::of(&e), "a visit", &["File(UnexpectedRawOrFileProperties"], &has, false)?;
            match &e {
                FileReadFailed::File(FileError::UnexpectedRawOrFileProperties { hash_type, fanout }) => {
                    same!((*hash_type, *fanout), (m.hash_type, m.fanout), "the values in the error");
                }
                _ => (),
            }
            let e = must_fail(walk_start(&block), "a walk")?;
            expect(&Said::of(&e), "a walk", &["File(UnexpectedRawOrFileProperties"], &has, false)?;
            let (a, b) = must_fail(as_child(&block, 7), "the child of a file")?;
            expect(&Said::of(&a), "a visited child", &["File(UnexpectedRawOrFileProperties"], &has, false)?;
            expect(&Said::of(&b), "a walked child", &["File(UnexpectedRawOrFileProperties"], &has, false)?;
        }
        5 => {
            label = "metadata below the root of a file";
            let mut m = Msg::of(if rng.bool() { pbo::FILE } else { pbo::RAW });
            m.data = Some(b"content".to_vec());
            m.filesize = Some(7);
            let meta = loop {
                let x = model::Meta::random(rng);
                if x.mode.is_some() || x.mtime.is_some() {
                    break x;
                }
            };
            meta.into_msg(&mut m);
            let block = pbo::enc_block(&[], &m);
            key = fp(&block);
            c.describe(|| format!("{}: {}", label, hexs(&block)));
            let (a, b) = must_fail(as_child(&block, 7), "the child of a file")?;
            let mut has = Vec::new();
            if let Some((s, _)) = meta.seen().1 {
                has.push(s.to_string());
            }
            expect(&Said::of(&a), "a visited child", &["File(NonRootDefinesMetadata"], &has, false)?;
            expect(&Said::of(&b), "a walked child", &["File(NonRootDefinesMetadata"], &has, false)?;
            for x in [
                match a {
                    FileReadFailed::File(FileError::NonRootDefinesMetadata(x)) => Some(x),
                    _ => None,
                },
                match b {
                    walk::Error::File(FileError::NonRootDefinesMetadata(x)) => Some(x),
                    _ => None,
                },
            ]
            .iter()
            .flatten()
            {
                same!(crate::drive::seen(x), meta.seen(), "the metadata in the error");
            }
        }
        6 => {
            label = "properties of a directory";
            let mut m = Msg::of(pbo::DIR);
            let mut has = Vec::new();
            let which = rng.range(1, 31);
            if which & 1 != 0 {
                m.filesize = Some(number(rng));
                has.push(m.filesize.unwrap().to_string());
            }
            if which & 2 != 0 {
                m.blocksizes = vec![1; rng.usize(100, 900)];
                has.push(m.blocksizes.len().to_string());
            }
            if which & 4 != 0 {
                m.hash_type = Some(number(rng));
                has.push(m.hash_type.unwrap().to_string());
            }
            if which & 8 != 0 {
                m.fanout = Some(number(rng));
                has.push(m.fanout.unwrap().to_string());
            }
            if which & 16 != 0 {
                let n = rng.usize(4, 20);
                let d = rng.bytes(n);
                has.push(util::hex(&d));
                m.data = Some(d);
            }
            let block = pbo::enc_block(&links, &m);
            key = fp(&block);
            c.describe(|| format!("{}: {}", label, hexs(&block)));
            let e = must_fail(resolve_in(&block, "name"), "resolving")?;
            expect(&Said::of(&e), "resolving", &["UnexpectedDirProperties("], &has, false)?;
            let e = must_fail(walk_start(&block), "a walk")?;
            expect(&Said::of(&e), "a walk", &["UnsupportedDirectory("], &has, false)?;
        }
        7 => {
            label = "properties of a shard";
            let mut m = Msg::hamt();
            let mut has = Vec::new();
            let unsupported = rng.bool();
            let which = rng.range(1, 3);
            if unsupported {
                if which & 1 != 0 {
                    m.hash_type = if rng.one_in(4) { None } else { Some(number(rng)) };
                }
                if which & 2 != 0 {
                    m.fanout = if rng.one_in(4) { None } else { Some(number(rng)) };
                }
                has.extend(m.hash_type.map(|x| x.to_string()));
                has.extend(m.fanout.map(|x| x.to_string()));
            } else {
                if which & 1 != 0 {
                    m.filesize = Some(number(rng));
                    has.push(m.filesize.unwrap().to_string());
                }
                if which & 2 != 0 {
                    m.blocksizes = vec![1; rng.usize(100, 900)];
                    has.push(m.blocksizes.len().to_string());
                }
            }
            let block = pbo::enc_block(&links, &m);
            key = fp(&block);
            c.describe(|| format!("{}: {}", label, hexs(&block)));
            let kind = if unsupported { "UnsupportedProperties" } else { "UnexpectedProperties" };
            let judge = |e: &ShardError, who: &str| -> R {
                let got = match e {
                    ShardError::UnsupportedProperties { hash_type, fanout } => (*hash_type, *fanout, Vec::new()),
                    ShardError::UnexpectedProperties { filesize, blocksizes } => (*filesize, None, blocksizes.clone()),
                };
                let want = if unsupported {
                    (m.hash_type, m.fanout, Vec::new())
                } else {
                    (m.filesize, None, m.blocksizes.clone())
                };
                same!(got, want, "the values in the error of {}", who);
                Ok(())
            };
            let e = must_fail(resolve_in(&block, "name"), "resolving")?;
            expect(&Said::of(&e), "resolving", &[&format!("Lookup(Shard({}", kind)], &has, false)?;
            if let ResolveError::Lookup(LookupError::Shard(s)) = &e {
                judge(s, "resolving")?;
            }
            let e = must_fail(as_bucket(&block, "name"), "a lookup")?;
            expect(&Said::of(&e), "a lookup", &[&format!("Shard({}", kind)], &has, false)?;
            if let LookupError::Shard(s) = &e {
                judge(s, "a lookup")?;
            }
            let e = must_fail(walk_start(&block), "a walk")?;
            expect(&Said::of(&e), "a walk", &[&format!("UnsupportedHAMTShard({}", kind)], &has, false)?;
            if let walk::Error::UnsupportedHAMTShard(s) = &e {
                judge(s, "a walk")?;
            }
        }
        8 => {
            label = "two matches";
            let n = rng.usize(2, 300);
            let (i, j) = {
                let i = rng.idx(n - 1);
                (i, rng.usize(i + 1, n - 1))
            };
            let name = model::name(rng);
            let sharded = rng.bool();
            let bucket = sharded && rng.bool();
            let second_broken = rng.one_in(3);
            let mut links = Vec::new();
            for at in 0..n {
                let own = if at == i || at == j { name.clone() } else { format!("{} no. {}", name, at) };
                let own = if sharded { format!("{:02X}{}", at & 0xff, own) } else { own };
                let mut l = Link::new(&some_cid(rng), &own, 1);
                if at == j && second_broken {
                    l.hash = Some(vec![0xff; rng.idx(6)]);
                }
                links.push(l);
            }
            let m = if sharded { Msg::hamt() } else { Msg::of(pbo::DIR) };
            let block = pbo::enc_block(&links, &m);
            key = fp(&block);
            c.describe(|| format!("{}: {:?} at {} and {} of {}, sharded {}, bucket {}", label, name, i, j, n, sharded, bucket));
            let e = if bucket {
                must_fail(as_bucket(&block, &name), "a lookup")?.into_resolve_error()
            } else {
                must_fail(resolve_in(&block, &name), "resolving")?
            };
            let cid = |at: usize| cid_from(links[at].hash_bytes()).to_string();
            let mut has = vec![i.to_string(), j.to_string(), cid(i)];
            if !second_broken {
                has.push(cid(j));
            } else {
                has.push(format!("{:?}", links[j].name_str()));
            }
            let kind = if second_broken { "Lookup(Multiple(OneValid" } else { "Lookup(Multiple(Two" };
            expect(&Said::of(&e), "resolving", &[kind], &has, false)?;
            if let ResolveError::Lookup(LookupError::Multiple(m)) = e {
                let first = (i, links[i].hash_bytes().to_vec());
                let h = links[j].hash_bytes().to_vec();
                let want = if second_broken {
                    Step::OneValid(first.clone(), (j, links[j].name_str().to_string(), h))
                } else {
                    Step::Two(first.clone(), (j, h))
                };
                same!(of_multiple(&m), want, "the links in the error");
                same!(m.into_inner().to_bytes(), first.1, "into_inner() of the error");
            }
        }
        9 => {
            label = "broken links";
            let n = rng.usize(1, 40);
            let at = rng.idx(n);
            let name = model::name(rng);
            let hash = no_cid(rng);
            let file = rng.one_in(3);
            let sharded = !file && rng.bool();
            let mut links = Vec::new();
            for k in 0..n {
                let own = if file {
                    String::new()
                } else if k == at {
                    name.clone()
                } else {
                    format!("other{}", k)
                };
                let own = if sharded { format!("{:02X}{}", k, own) } else { own };
                let mut l = Link::new(&some_cid(rng), &own, 1);
                if k == at {
                    l.hash = hash.clone();
                }
                links.push(l);
            }
            let mut m = if sharded { Msg::hamt() } else { Msg::of(pbo::DIR) };
            if file {
                m = Msg::of(pbo::FILE);
                m.filesize = Some(n as u64);
                m.blocksizes = vec![1; n];
            }
            let block = pbo::enc_block(&links, &m);
            key = fp(&block);
            let why = match libipld::Cid::try_from(links[at].hash_bytes()) {
                Ok(_) => return Ok(()),
                Err(e) => e.to_string(),
            };
            c.describe(|| format!("{}: {} of {}, {:?} is {}", label, at, n, links[at].hash, why));
            let has = vec![at.to_string(), format!("{:?}", links[at].name_str()), why];
            let judge = |l: &unixfs_v1::InvalidCidInLink, who: &str| -> R {
                expect(&Said::of(l), who, &["InvalidCidInLink"], &has, true)
            };
            let mut judged = 0;
            let e = must_fail(walk_start(&block), "a walk")?;
            if let walk::Error::InvalidCid(l) = &e {
                judge(l, "a walk")?;
                judged += 1;
            }
            expect(&Said::of(&e), "a walk", &["InvalidCid("], &has, true)?;
            if file {
                let e = must_fail(visit_start(&block), "a visit")?;
                expect(&Said::of(&e), "a visit", &["InvalidCid("], &has, true)?;
                if let FileReadFailed::InvalidCid(l) = &e {
                    judge(l, "a visit")?;
                    judged += 1;
                }
            } else {
                let e = must_fail(resolve_in(&block, &name), "resolving")?;
                // the text of these shows the link as it is for debugging
                expect(&Said::of(&e), "resolving", &["Lookup(InvalidCid("], &has[..2], true)?;
                if let ResolveError::Lookup(LookupError::InvalidCid(l)) = &e {
                    judge(l, "resolving")?;
                    judged += 1;
                }
            }
            ensure!(judged == 2, "{} of 2 errors carry the link", judged);
        }
        _ => {
            label = "builder";
            // a path which is refused, and a directory which gets too large
            let name = model::name(rng);
            let cid = cid_from(&some_cid(rng));
            let (path, want) = match rng.below(5) {
                0 => (format!("/{}", name), "RootedPath"),
                1 => (format!("{}//x", name), "RepeatSlashesInPath"),
                2 => (format!("{}/", name), "PathEndsInSlash"),
                3 => (name.clone(), "DuplicatePath"),
                _ => (format!("{}/x", name), "LeafAsDirectory"),
            };
            let mut opts = TreeOptions::default();
            opts.wrap_with_directory();
            let limit = if rng.bool() { None } else { Some(rng.below(60)) };
            opts.block_size_limit(limit);
            let mut b = BufferingTreeBuilder::new(opts);
            b.put_link(&name, cid.clone(), 1).map_err(|e| Fail(format!("{:?} is refused: {:?}", name, e)))?;
            let metadata = rng.one_in(4) && want != "DuplicatePath";
            let r = if metadata {
                b.set_metadata(&path, Default::default())
            } else {
                b.put_link(&path, cid, 1)
            };
            let e = match r {
                Ok(()) => return Err(Fail(format!("{:?} is accepted", path))),
                Err(e) => e,
            };
            key = fp2(fp(path.as_bytes()), limit.unwrap_or(99));
            c.describe(|| format!("{:?} after {:?}, limit {:?}", path, name, limit));
            expect(&Said::of(&e), "the builder", &[want], &[format!("{:?}", path)], false)?;
            let mut it = b.build();
            let mut size = None;
            while let Some(r) = it.next_borrowed() {
                match r {
                    Ok(n) => ensure!(
                        limit.map(|l| n.block.len() as u64 <= l).unwrap_or(true),
                        "a block of {} bytes, limit {:?}",
                        n.block.len(),
                        limit
                    ),
                    Err(e) => {
                        if let TreeConstructionFailed::TooLargeBlock(n) = &e {
                            expect(&Said::of(&e), "building", &["TooLargeBlock("], &[n.to_string()], false)?;
                            size = Some(*n);
                        }
                        break;
                    }
                }
            }
            if let (Some(n), Some(l)) = (size, limit) {
                ensure!(n > l, "a block of {} bytes is refused, the limit is {}", n, l);
                c.add("too large blocks", 1);
            }
        }
    }
    c.add(label, 1);
    c.counts(fp2(key, kind));
    Ok(())
}
