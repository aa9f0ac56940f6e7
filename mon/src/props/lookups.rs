//! D01 - D04: resolving names in plain and sharded directories.

use super::{Prop, EXPLORED, ORACLE};
use crate::drive::{self, Found};
use crate::model::{self, lay_tree, Ink, Kind, Meta, Shard, Slot, Store, Tree, TreeGen};
use crate::pbo::{self, Link, Msg};
use crate::util::{self, fp, fp2, Rng};
use crate::{ensure, same, Case, Fail, R};
use std::collections::BTreeMap;
use std::path::PathBuf;
use unixfs_v1::dir::{MaybeResolved, MultipleMatchingLinks};
use unixfs_v1::{LookupError, ResolveError};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "D01",
        title: "Resolving in a plain directory or dag-pb node is exact",
        run: d01,
        quick: 200000,
        rule: "random blocks (plain directories, nodes without or with invalid UnixFS data, files and other types, byte strings that are not dag-pb) with 0-12 links whose names repeat, contain each other, are empty or missing; names looked up are taken from, derived from and foreign to the block; counted when the block has links or is refused",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "D02",
        title: "A sharded directory lookup finds a name exactly when it exists",
        run: d02,
        quick: 40000,
        rule: "random sharded directories (hashed like go-ipfs or arbitrary bucket structure up to four levels, or hundreds of entries), every kind of present, absent and near-miss name is looked up with the needle owned at a random step; counted when the shard has an entry",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "D03",
        title: "Unsupported directory nodes are refused everywhere",
        run: d03,
        quick: 30000,
        rule: "a random well-formed tree in which one node gets unsupported properties, a wrong or undefined type, or harmless extras; it is met by resolving, by a sharded lookup and by walking; counted when the changed node is reached",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "D04",
        title: "Walking and resolving agree on every directory",
        run: d04,
        quick: 20000,
        rule: "random trees; every directory in them is resolved with every name its walk lists and with names it does not list; counted when the tree has an entry",
        assumptions: &[ORACLE, EXPLORED],
    },
];

// ---- shared generators -------------------------------------------------------------------------

/// A sharded directory with at least a few entries in most cases; what the entries are matters less.
pub fn random_sharded(rng: &mut Rng) -> Tree {
    let mut g = TreeGen::random(rng);
    g.weights = [6, 3, 1, 1];
    g.budget = 6;
    let n = match rng.below(10) {
        0 => 0,
        1 => 1,
        2..=6 => rng.usize(2, 12),
        7 | 8 => rng.usize(12, 60),
        _ => rng.usize(60, 300),
    };
    let mut names = model::distinct_names(rng, n.min(40));
    while names.len() < n {
        let s = format!("file-{}-{}", names.len(), rng.below(1000));
        names.push(s);
    }
    rng.shuffle(&mut names);
    let kids: Vec<(String, Tree)> = names
        .into_iter()
        .enumerate()
        .map(|(i, s)| {
            let t = if i < 6 {
                g.tree(rng, 1)
            } else {
                Tree::Symlink {
                    meta: Meta::default(),
                    target: format!("{}", i).into_bytes(),
                }
            };
            (s, t)
        })
        .collect();
    let root = if rng.one_in(3) {
        model::hashed_shard(rng, kids, 0)
    } else {
        let d = rng.usize(0, 4);
        model::loose_shard(rng, kids, d)
    };
    Tree::Hamt {
        meta: Meta::sparse(rng),
        root,
    }
}

fn link_names(s: &Shard, out: &mut Vec<String>) {
    for (p, slot) in &s.slots {
        match slot {
            Slot::Entry(n, _) => out.push(format!("{}{}", p, n)),
            Slot::Bucket(b) => {
                out.push(p.clone());
                link_names(b, out)
            }
        }
    }
}

/// Names to look up in a sharded directory: present, absent and nearly present ones.
pub fn needles(rng: &mut Rng, t: &Tree) -> Vec<String> {
    let mut out = vec!["surely not there".to_string()];
    if let Tree::Hamt { root, .. } = t {
        let mut entries = Vec::new();
        root.entries(&mut entries);
        let mut names: Vec<String> = entries.iter().map(|(n, _)| n.to_string()).collect();
        rng.shuffle(&mut names);
        names.truncate(12);
        for n in names.iter().take(4) {
            let x = model::variant(rng, n);
            out.push(x);
        }
        let mut links = Vec::new();
        link_names(root, &mut links);
        if !links.is_empty() {
            out.push(links[rng.idx(links.len())].clone());
        }
        out.extend(names);
    }
    if rng.bool() {
        out.push(String::new());
        out.push(format!("{:02X}", rng.below(256)));
        out.push(model::name(rng));
    }
    out.dedup();
    out
}

/// A valid identifier of one of many forms.
fn any_cid(rng: &mut Rng) -> Vec<u8> {
    let b = rng.bytes(8);
    crate::util::cid_styled(&b, rng.below(crate::util::STYLES) as u8)
}

fn broken_cid(rng: &mut Rng) -> Option<Vec<u8>> {
    match rng.below(5) {
        0 => None,
        1 => Some(Vec::new()),
        2 => Some(vec![0x01]),
        3 => {
            let c = any_cid(rng);
            let n = rng.usize(0, c.len() - 1);
            // a prefix of an identity identifier could be complete
            if c[..2] == [0x01, 0x55] {
                Some(vec![0x01, 0x55])
            } else {
                Some(c[..n].to_vec())
            }
        }
        _ => Some(vec![0x02, 0x70, 0x12, 0x20, 1, 2, 3]),
    }
}

// ---- D01 ---------------------------------------------------------------------------------------

#[derive(Debug)]
enum Want {
    Target(Vec<u8>),
    No,
    Two((usize, Vec<u8>), (usize, Vec<u8>)),
    OneValid((usize, Vec<u8>), (usize, String, Vec<u8>)),
    /// The first match is broken.
    Broken(usize),
    BadType(u64),
    NotDagPb,
}

fn valid(h: &[u8]) -> bool {
    use std::convert::TryFrom;
    libipld::Cid::try_from(h).is_ok()
}

fn d01(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    // names from a small pool repeat often
    let pool: Vec<String> = {
        let n = rng.usize(1, 6);
        let mut p: Vec<String> = (0..n).map(|_| model::name(rng)).collect();
        if rng.bool() {
            let x = p[0].clone();
            p.push(model::variant(rng, &x));
        }
        if rng.one_in(3) {
            p.push(String::new());
        }
        p
    };
    let nlinks = rng.idx(13);
    let unique = rng.bool();
    let broken = rng.one_in(3);
    let mut links: Vec<Link> = Vec::new();
    let mut used: Vec<String> = Vec::new();
    for i in 0..nlinks {
        let mut name = rng.pick(&pool).clone();
        if unique && used.contains(&name) {
            name = format!("{}{}", name, i);
        }
        used.push(name.clone());
        let mut l = Link::new(&any_cid(rng), &name, rng.clone().wide());
        if name.is_empty() && rng.bool() {
            l.name = None;
        }
        if broken && rng.one_in(3) {
            l.hash = broken_cid(rng);
        }
        if rng.one_in(6) {
            l.tsize = None;
        }
        links.push(l);
    }
    let ink = Ink::random(rng);
    let mut other_type = None;
    let what;
    let block = match rng.below(8) {
        0 | 1 | 2 => {
            what = "directory";
            let mut m = Msg::of(pbo::DIR);
            Meta::sparse(rng).into_msg(&mut m);
            if rng.one_in(8) {
                m.data = Some(Vec::new());
            }
            ink.block(rng, &links, &m)
        }
        3 | 4 => {
            what = "no data";
            let n = pbo::Node {
                links: links.clone(),
                data: if rng.bool() { None } else { Some(Vec::new()) },
            };
            if ink.odd {
                pbo::enc_node_odd(rng, &n)
            } else {
                pbo::enc_node(&n)
            }
        }
        5 => {
            what = "invalid UnixFS";
            let data = loop {
                let d = match rng.below(3) {
                    0 => {
                        let n = rng.usize(1, 12);
                        rng.bytes(n)
                    }
                    1 => {
                        // cut short
                        let mut d = pbo::enc_msg(&Msg {
                            ty: Some(pbo::DIR),
                            data: Some(b"cut short".to_vec()),
                            ..Default::default()
                        });
                        let n = rng.usize(3, d.len() - 1);
                        d.truncate(n);
                        d
                    }
                    _ => {
                        let mut d = Vec::new();
                        pbo::varint(&mut d, 1 << 3);
                        pbo::varint(&mut d, rng.range(6, 1000));
                        d
                    }
                };
                if pbo::dec_msg(&d) == Err(pbo::Bad::Malformed) {
                    break d;
                }
            };
            pbo::enc_node(&pbo::Node {
                links: links.clone(),
                data: Some(data),
            })
        }
        6 => {
            what = "other type";
            let ty = *rng.pick(&[pbo::RAW, pbo::FILE, pbo::META, pbo::SYMLINK]);
            other_type = Some(ty);
            let mut m = Msg::of(ty);
            if rng.bool() {
                m.data = Some(b"content".to_vec());
                m.filesize = Some(7);
            }
            ink.block(rng, &links, &m)
        }
        _ => {
            what = "not dag-pb";
            loop {
                let b = match rng.below(3) {
                    0 => {
                        let n = rng.usize(1, 40);
                        rng.bytes(n)
                    }
                    1 => {
                        let mut b = pbo::enc_block(&links, &Msg::of(pbo::DIR));
                        let n = rng.usize(1, b.len());
                        b.truncate(n);
                        b
                    }
                    _ => {
                        // a name which is not UTF-8
                        let mut l = pbo::enc_link(&Link::new(&any_cid(rng), "", 1));
                        l.extend([0x12, 2, 0xff, 0xfe]);
                        let mut b = vec![0x12, l.len() as u8];
                        b.extend(l);
                        b
                    }
                };
                if matches!(pbo::dec_node(&b), Err(pbo::Bad::Malformed)) {
                    break b;
                }
            }
        }
    };

    let mut asked: Vec<String> = pool.clone();
    asked.push("surely not there".into());
    let x = pool[rng.idx(pool.len())].clone();
    asked.push(model::variant(rng, &x));
    asked.push(String::new());
    let stale = rng.below(3);
    let mut cache = match stale {
        0 => None,
        1 => drive::dir_cache(std::collections::VecDeque::new()),
        _ => drive::stale_dir_cache(rng),
    };

    // the same links with two of the targets exchanged, in a block of the same length
    let mut both = vec![(block.clone(), links.clone())];
    if links.len() > 1 {
        let (i, j) = (rng.idx(links.len()), rng.idx(links.len()));
        let (a, b) = (links[i].hash_bytes().to_vec(), links[j].hash_bytes().to_vec());
        let at = |h: &[u8]| {
            let mut found = (0..block.len()).filter(|p| block[*p..].starts_with(h));
            match (found.next(), found.next()) {
                (Some(p), None) => Some(p),
                _ => None,
            }
        };
        if a.len() == b.len() && a.len() > 8 && a != b {
            if let (Some(p), Some(q)) = (at(&a), at(&b)) {
                let (mut block, mut links) = both[0].clone();
                block[p..p + a.len()].copy_from_slice(&b);
                block[q..q + b.len()].copy_from_slice(&a);
                links[i].hash = Some(b);
                links[j].hash = Some(a);
                both.push((block, links));
                c.add("pairs of blocks which differ in their targets only", 1);
            }
        }
    }

    let mut seen_want = 0;
    for needle in &asked {
        for (block, links) in &both {
            let want = if let Some(t) = other_type {
                Want::BadType(t)
            } else if what == "not dag-pb" {
                Want::NotDagPb
            } else {
                let m: Vec<(usize, &Link)> = links
                    .iter()
                    .enumerate()
                    .filter(|(_, l)| l.name_str() == needle)
                    .collect();
                match m.len() {
                    0 => Want::No,
                    _ if !valid(m[0].1.hash_bytes()) => Want::Broken(m[0].0),
                    1 => Want::Target(m[0].1.hash_bytes().to_vec()),
                    _ => {
                        let first = (m[0].0, m[0].1.hash_bytes().to_vec());
                        if valid(m[1].1.hash_bytes()) {
                            Want::Two(first, (m[1].0, m[1].1.hash_bytes().to_vec()))
                        } else {
                            Want::OneValid(
                                first,
                                (m[1].0, needle.clone(), m[1].1.hash_bytes().to_vec()),
                            )
                        }
                    }
                }
            };
            let got = unixfs_v1::resolve(&drive::lend(block), needle, &mut cache);
            let text = match &got {
                Ok(x) => format!("{:?}", x),
                Err(e) => format!("{:?} / {}", e, e),
            };
            let two = |e: &MultipleMatchingLinks| match e {
                MultipleMatchingLinks::Two { first, second } => Want::Two(
                    (first.0, first.1.to_bytes()),
                    (second.0, second.1.to_bytes()),
                ),
                MultipleMatchingLinks::OneValid { first, second } => Want::OneValid(
                    (first.0, first.1.to_bytes()),
                    (second.nth, second.name.to_string(), second.hash.to_vec()),
                ),
            };
            let ok = match (&want, &got) {
                (Want::Target(t), Ok(MaybeResolved::Found(x))) => *t == x.to_bytes(),
                (Want::No, Ok(MaybeResolved::NotFound)) => true,
                (Want::Two(..), Err(ResolveError::Lookup(LookupError::Multiple(e))))
                | (Want::OneValid(..), Err(ResolveError::Lookup(LookupError::Multiple(e)))) => {
                    format!("{:?}", two(e)) == format!("{:?}", want)
                }
                (Want::Broken(n), Err(ResolveError::Lookup(LookupError::InvalidCid(e)))) => e.nth == *n,
                (Want::BadType(t), Err(ResolveError::UnexpectedType(u))) => {
                    u.is_file() == (*t == pbo::FILE) && !u.is_directory()
                }
                (Want::NotDagPb, Err(ResolveError::Read(_))) => true,
                _ => false,
            };
            c.obs_kind(&want);
            seen_want += 1;
            ensure!(
                ok,
                "resolving {:?} in a block ({}) gave {}, expected {:?}; block {}",
                needle,
                what,
                text,
                want,
                util::hexs(block)
            );
            if let (Want::Two(a, _), Err(ResolveError::Lookup(LookupError::Multiple(_)))) = (&want, &got) {
                if let Err(ResolveError::Lookup(LookupError::Multiple(e))) = got {
                    same!(e.into_inner().to_bytes(), a.1, "into_inner() of the two links");
                }
            }
        }
    }
    c.add("resolves", seen_want);
    c.describe(|| format!("{} with {} links, names {:?}, block {}", what, nlinks, pool, util::hexs(&block)));
    if nlinks > 0 || what != "no data" {
        c.counts(fp(&block));
    }
    Ok(())
}

impl Case {
    fn obs_kind(&mut self, w: &Want) {
        let k = match w {
            Want::Target(_) => "found",
            Want::No => "not_found",
            Want::Two(..) => "two_matches",
            Want::OneValid(..) => "two_matches_second_broken",
            Want::Broken(_) => "match_is_broken",
            Want::BadType(_) => "other_type",
            Want::NotDagPb => "not_dag_pb",
        };
        self.add(k, 1);
    }
}

// ---- D02 ---------------------------------------------------------------------------------------

/// All bucket links below the given shard block, each as often as it is linked.
fn buckets(store: &Store, cid: &[u8], out: &mut Vec<Vec<u8>>) {
    let b = store.get(cid).unwrap();
    let (n, _) = pbo::dec_node(b).unwrap();
    for l in &n.links {
        if l.name_str().len() == 2 {
            out.push(l.hash_bytes().to_vec());
            buckets(store, l.hash_bytes(), out);
        }
    }
}

fn entry_targets(store: &Store, cid: &[u8], out: &mut BTreeMap<String, Vec<u8>>) {
    let b = store.get(cid).unwrap();
    let (n, _) = pbo::dec_node(b).unwrap();
    for l in &n.links {
        if l.name_str().len() == 2 {
            entry_targets(store, l.hash_bytes(), out);
        } else {
            out.insert(l.name_str()[2..].to_string(), l.hash_bytes().to_vec());
        }
    }
}

fn d02(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let t = random_sharded(rng);
    let ink = Ink::random(rng);
    let mut store = Store::default();
    let laid = lay_tree(rng, &ink, &mut store, &t, &PathBuf::new(), true);
    let asked = needles(rng, &t);
    let mut all = Vec::new();
    buckets(&store, &laid.cid, &mut all);
    let mut targets = BTreeMap::new();
    entry_targets(&store, &laid.cid, &mut targets);
    let entries = targets.len();
    all.sort();
    let mut cache = None;
    let mut shape = 0;
    for needle in &asked {
        let own_at = if rng.bool() { Some(rng.usize(1, 4)) } else { None };
        let fresh = rng.bool();
        let mut none = None;
        let ca = if fresh { &mut none } else { &mut cache };
        let log = drive::lookup(&store, &laid.cid, needle, ca, own_at, all.len() + 3)?;
        let want = match targets.get(needle.as_str()) {
            Some(t) => Found::Target(t.clone()),
            None => Found::No,
        };
        same!(
            log.end,
            want,
            "looking up {:?} (owned at {:?}) among {} names in {} buckets",
            needle,
            own_at,
            entries,
            all.len() + 1
        );
        let mut asked_for: Vec<Vec<u8>> = log.steps.iter().skip(1).map(|s| s.0.clone()).collect();
        let n = asked_for.len();
        asked_for.sort();
        if want == Found::No {
            ensure!(
                asked_for == all,
                "{:?} is said not to exist after {} of {} buckets",
                needle,
                n,
                all.len()
            );
            c.add("absent", 1);
        } else {
            // every bucket at most as often as it is linked
            let mut left = all.clone();
            for a in &asked_for {
                match left.iter().position(|x| x == a) {
                    Some(i) => {
                        left.swap_remove(i);
                    }
                    None => {
                        return Err(Fail::new(format!(
                            "the bucket {} was requested more often than it is linked",
                            model::tail(a)
                        )))
                    }
                }
            }
            c.add("present", 1);
        }
        if own_at.map(|o| o <= n).unwrap_or(false) {
            c.add("owned_in_the_middle", 1);
        }
        c.add("buckets_requested", n as u64);
        c.max("max_buckets_requested", n as u64);
        shape = fp2(shape, n as u64);
    }
    c.max("max_entries", entries as u64);
    c.describe(|| format!("{} entries in {} blocks, looked up {:?}", entries, all.len() + 1, asked));
    if entries > 0 {
        c.counts(fp2(fp(&laid.cid), shape));
    }
    Ok(())
}

// ---- D03 ---------------------------------------------------------------------------------------

fn edit(store: &mut Store, rng: &mut Rng, cid: &[u8], f: impl FnOnce(&mut Rng, &mut Msg)) {
    let (n, _) = pbo::dec_node(store.get(cid).unwrap()).unwrap();
    let mut m = pbo::dec_msg(n.data.as_deref().unwrap()).unwrap();
    f(rng, &mut m);
    let b = pbo::enc_block(&n.links, &m);
    store.map.insert(cid.to_vec(), b);
}

/// A number that does not occur by accident.
fn telling(rng: &mut Rng) -> u64 {
    1_000_000_007 + rng.below(8_000_000_000)
}

fn d03(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let mut g = TreeGen::random(rng);
    g.share = false;
    let t = if rng.bool() {
        random_sharded(rng)
    } else if rng.bool() {
        g.hamt(rng, 3)
    } else {
        g.dir(rng, 3)
    };
    let t = if rng.one_in(100) { g.extreme(rng) } else { t };
    let mut store = Store::default();
    let laid = lay_tree(rng, &Ink::plain(), &mut store, &t, &PathBuf::new(), true);
    let dirs: Vec<usize> = (0..laid.events.len())
        .filter(|i| matches!(laid.events[*i].kind, Kind::Root | Kind::Dir | Kind::Bucket))
        .collect();
    let at = if rng.one_in(3) { dirs[0] } else { *rng.pick(&dirs) };
    let cid = laid.events[at].block.clone();
    let (node, _) = pbo::dec_node(store.get(&cid).unwrap()).unwrap();
    let was = pbo::dec_msg(node.data.as_deref().unwrap()).unwrap();
    let hamt = was.ty == Some(pbo::HAMT);
    let is_bucket = laid.events[at].kind == Kind::Bucket;

    // what is done to it, and what the error has to state
    let mut groups: Vec<Vec<String>> = Vec::new();
    let mut refused = true;
    let mut type_change = false;
    let what = rng.below(if is_bucket { 8 } else { 7 });
    let label: &'static str;
    match what {
        0 | 1 | 2 if !hamt => {
            label = "directory_with_properties";
            let mut states = Vec::new();
            let which = loop {
                let w = rng.below(32);
                if w != 0 {
                    break if rng.bool() { 1 << rng.below(5) } else { w };
                }
            };
            edit(&mut store, rng, &cid, |rng, m| {
                if which & 1 != 0 {
                    let x = if rng.one_in(4) { 0 } else { telling(rng) };
                    m.filesize = Some(x);
                    states.push(x.to_string());
                }
                if which & 2 != 0 {
                    let zeros = rng.one_in(4);
                    for _ in 0..rng.usize(1, 3) {
                        let x = if zeros { 0 } else { telling(rng) };
                        m.blocksizes.push(x);
                        states.push(x.to_string());
                    }
                }
                if which & 4 != 0 {
                    let x = if rng.one_in(3) { *rng.pick(&[0, 34]) } else { telling(rng) };
                    m.hash_type = Some(x);
                    states.push(x.to_string());
                }
                if which & 8 != 0 {
                    let x = if rng.one_in(3) { *rng.pick(&[0, 256]) } else { telling(rng) };
                    m.fanout = Some(x);
                    states.push(x.to_string());
                }
                if which & 16 != 0 {
                    let n = *rng.pick(&[1, 1, 2, 3, 8, 9, 31, 32, 33, 300]);
                    let b = match rng.below(4) {
                        0 => vec![0; n],
                        1 => vec![*rng.pick(&[b' ', b'/', b'.', 0xff, b'\n']); n],
                        _ => rng.bytes(n),
                    };
                    // either way of showing bytes will do
                    m.data = Some(b);
                }
            });
            groups.push(states);
        }
        0 | 1 | 2 => {
            label = "shard_with_properties";
            let which = loop {
                let w = rng.below(16);
                if w != 0 {
                    break if rng.bool() { 1 << rng.below(4) } else { w };
                }
            };
            let mut unsupported = Vec::new();
            let mut unexpected = Vec::new();
            edit(&mut store, rng, &cid, |rng, m| {
                if which & 1 != 0 {
                    m.hash_type = match rng.below(4) {
                        0 => None,
                        1 => Some(*rng.pick(&[33, 35, 0, 34 << 8, (1 << 32) + 34, u64::MAX])),
                        _ => Some(telling(rng)),
                    };
                }
                if which & 2 != 0 {
                    m.fanout = match rng.below(4) {
                        0 => None,
                        1 => Some(*rng.pick(&[255, 257, 0, 1, 128, 512, (1 << 32) + 256, u64::MAX])),
                        _ => Some(telling(rng)),
                    };
                }
                if which & 3 != 0 {
                    unsupported = vec![format!("{:?}", m.hash_type), format!("{:?}", m.fanout)];
                }
                if which & 4 != 0 {
                    let x = if rng.one_in(4) { 0 } else { telling(rng) };
                    m.filesize = Some(x);
                    unexpected.push(x.to_string());
                }
                if which & 8 != 0 {
                    let zeros = rng.one_in(4);
                    for _ in 0..rng.usize(1, 3) {
                        let x = if zeros { 0 } else { telling(rng) };
                        m.blocksizes.push(x);
                        unexpected.push(x.to_string());
                    }
                }
            });
            if !unsupported.is_empty() {
                groups.push(unsupported);
            }
            if !unexpected.is_empty() {
                groups.push(unexpected);
            }
        }
        3 => {
            label = "metadata_type";
            type_change = true;
            edit(&mut store, rng, &cid, |_, m| {
                let keep = m.mode;
                *m = Msg::of(pbo::META);
                m.mode = keep;
            });
        }
        4 => {
            label = "undefined_type";
            type_change = true;
            edit(&mut store, rng, &cid, |rng, m| {
                *m = Msg::of(*rng.pick(&[6, 7, 100, 0x7fff_ffff, 0xffff_ffff]));
            });
        }
        5 | 6 => {
            label = "supported_extras";
            refused = false;
            edit(&mut store, rng, &cid, |rng, m| {
                if hamt {
                    m.data = match rng.below(3) {
                        0 => None,
                        1 => Some(Vec::new()),
                        _ => {
                            let n = *rng.pick(&[1, 2, 8, 31, 32]);
                            Some(if rng.one_in(3) { vec![0; n] } else { rng.bytes(n) })
                        }
                    };
                } else {
                    m.data = if rng.bool() { None } else { Some(Vec::new()) };
                }
                // buckets report none
                if is_bucket {
                    Meta::random(rng).into_msg(m);
                }
            });
        }
        _ => {
            label = "bucket_of_other_type";
            type_change = true;
            edit(&mut store, rng, &cid, |rng, m| {
                *m = Msg::of(*rng.pick(&[pbo::DIR, pbo::FILE, pbo::RAW, pbo::SYMLINK]));
                if m.ty == Some(pbo::FILE) || m.ty == Some(pbo::RAW) {
                    m.data = Some(b"x".to_vec());
                    m.filesize = Some(1);
                }
            });
            // a file with links would be refused for other reasons as well
            let (n, _) = pbo::dec_node(store.get(&cid).unwrap()).unwrap();
            let b = pbo::enc_node(&pbo::Node {
                links: Vec::new(),
                data: n.data,
            });
            store.map.insert(cid.clone(), b);
        }
    }
    let bad = pbo::dec_node(store.get(&cid).unwrap()).unwrap().0.data.unwrap_or_default();
    let stated = |debug: &str| groups.is_empty() || groups.iter().any(|g| g.iter().all(|s| debug.contains(s.as_str())));

    // the same block as a named entry elsewhere is not a bucket there
    if type_change && laid.events.iter().any(|e| e.block == cid && (e.kind == Kind::Bucket) != is_bucket) {
        return Ok(());
    }
    // the walk
    let reach = laid.events.iter().position(|e| e.block == cid).unwrap();
    let log = drive::walk(&store, &laid.cid, "", &mut None, laid.events.len() + 2)?;
    if refused {
        ensure!(
            log.err.is_some(),
            "a walk went through a {} node ({}) at step {}: {}",
            label,
            util::hexs(&bad),
            reach,
            log.brief()
        );
        let (b, debug) = log.err.clone().unwrap();
        ensure!(
            b == cid && log.steps.len() == reach,
            "the walk failed at step {} with {}, expected at step {} because of {} ({})",
            log.steps.len(),
            debug,
            reach,
            label,
            util::hexs(&bad)
        );
        ensure!(
            stated(&debug),
            "the error {} does not state {:?}",
            debug,
            groups
        );
        c.add("walks_refused", 1);
    } else {
        ensure!(
            log.err.is_none() && log.steps.len() == laid.events.len(),
            "a walk was refused because of supported properties ({}): {}",
            util::hexs(&bad),
            log.brief()
        );
        c.add("walks_completed", 1);
    }

    // resolving directly, or as the bucket of a lookup that has to see all of them
    if !is_bucket {
        let r = drive::lookup(&store, &cid, "surely not there", &mut None, None, 2000)?;
        let first_needs = refused && !(label == "undefined_type");
        match &r.end {
            Found::Err(debug, text) => {
                ensure!(refused, "resolving was refused because of supported properties: {} ({})", debug, util::hexs(&bad));
                if !type_change {
                    ensure!(stated(debug), "the error {} does not state {:?}", debug, groups);
                    ensure!(!text.is_empty(), "an error without text");
                    let want = if hamt { "Lookup(Shard(" } else { "UnexpectedDirProperties(" };
                    ensure!(debug.starts_with(want), "resolving a {} gave {}", label, debug);
                } else if label == "metadata_type" {
                    ensure!(debug.starts_with("UnexpectedType("), "resolving a {} gave {}", label, debug);
                }
                c.add("resolves_refused", 1);
            }
            other => {
                ensure!(
                    !first_needs,
                    "resolving in a {} node ({}) gave {:?}",
                    label,
                    util::hexs(&bad),
                    other
                );
                c.add("resolves_accepted", 1);
            }
        }
    } else {
        // the shard this bucket belongs to is the nearest named directory above it
        let base = (0..at)
            .rev()
            .find(|i| laid.events[*i].kind == Kind::Root && laid.events[*i].path == laid.events[at].path)
            .ok_or_else(|| Fail::new("the generated bucket belongs to no shard".into()))?;
        let r = drive::lookup(&store, &laid.events[base].cid, "surely not there", &mut None, None, 2000)?;
        match &r.end {
            Found::Err(debug, text) => {
                ensure!(refused, "a lookup was refused because of supported properties: {} ({})", debug, util::hexs(&bad));
                ensure!(
                    r.steps.last().map(|s| &s.0) == Some(&cid),
                    "the lookup failed at another bucket than the {} one: {}",
                    label,
                    debug
                );
                ensure!(!text.is_empty(), "an error without text");
                if !type_change {
                    ensure!(stated(debug), "the error {} does not state {:?}", debug, groups);
                    ensure!(debug.starts_with("Shard("), "a lookup in a {} gave {}", label, debug);
                } else if label != "undefined_type" {
                    ensure!(
                        debug.starts_with("UnexpectedBucketType("),
                        "a lookup in a {} gave {}",
                        label,
                        debug
                    );
                }
                c.add("lookups_refused", 1);
            }
            other => {
                ensure!(
                    !refused,
                    "a lookup went through a {} node ({}) and gave {:?}",
                    label,
                    util::hexs(&bad),
                    other
                );
                c.add("lookups_accepted", 1);
            }
        }
    }
    c.add(label, 1);
    c.describe(|| {
        format!(
            "{} at step {} of {}: data {}",
            label,
            reach,
            laid.events.len(),
            util::hexs(&bad)
        )
    });
    c.counts(fp2(fp(&bad), fp2(at as u64, laid.events.len() as u64)));
    Ok(())
}

// ---- D04 ---------------------------------------------------------------------------------------

fn d04(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let mut g = TreeGen::random(rng);
    g.weights = [2, 1, 4, 4];
    let depth = rng.usize(1, 4);
    let t = match rng.below(4) {
        0 => random_sharded(rng),
        1 | 2 => g.dir(rng, depth),
        _ => g.hamt(rng, depth),
    };
    let t = if rng.one_in(80) {
        c.add("very deep or wide trees", 1);
        g.extreme(rng)
    } else {
        t
    };
    let ink = Ink::random(rng);
    let mut store = Store::default();
    let laid = lay_tree(rng, &ink, &mut store, &t, &PathBuf::new(), true);
    let log = drive::walk(&store, &laid.cid, "", &mut None, laid.events.len() * 2 + 10)?;
    ensure!(
        log.err.is_none(),
        "walking a well-formed tree failed: {}",
        log.brief()
    );
    // directory path -> (its identifier, name -> identifier)
    let mut dirs: BTreeMap<PathBuf, (Vec<u8>, BTreeMap<String, Vec<u8>>)> = BTreeMap::new();
    for (i, s) in log.steps.iter().enumerate() {
        let e = &s.ev;
        if e.kind == Kind::Bucket || (e.kind == Kind::File && !e.first) {
            continue;
        }
        if i > 0 {
            let parent = e.path.parent().map(|p| p.to_path_buf()).unwrap_or_default();
            let name = e
                .path
                .file_name()
                .and_then(|n| n.to_str())
                .ok_or_else(|| Fail::new(format!("the entry {:?} has no name", e.path)))?
                .to_string();
            let d = dirs
                .get_mut(&parent)
                .ok_or_else(|| Fail::new(format!("{:?} is reported before its directory", e.path)))?;
            ensure!(
                d.1.insert(name, e.cid.clone()).is_none(),
                "{:?} is reported twice",
                e.path
            );
        }
        if matches!(e.kind, Kind::Dir | Kind::Root) {
            dirs.insert(e.path.clone(), (e.cid.clone(), BTreeMap::new()));
        }
    }
    let mut cache = None;
    let mut n = 0;
    let mut entries = 0;
    for (path, (cid, kids)) in &dirs {
        entries += kids.len() as u64;
        for (name, target) in kids {
            let r = drive::lookup(&store, cid, name, &mut cache, None, 2000)?;
            same!(
                r.end,
                Found::Target(target.clone()),
                "resolving {:?} in {:?}, where the walk lists it",
                name,
                path
            );
            n += 1;
        }
        let mut absent: Vec<String> = Vec::new();
        for k in kids.keys().take(3) {
            absent.push(model::variant(rng, k));
        }
        absent.push(model::name(rng));
        absent.push("surely not there".into());
        // what is listed elsewhere
        if let Some((_, (_, other))) = dirs.iter().nth(rng.idx(dirs.len())) {
            absent.extend(other.keys().take(2).cloned());
        }
        for name in absent.iter().filter(|a| !kids.contains_key(*a)) {
            let r = drive::lookup(&store, cid, name, &mut cache, None, 2000)?;
            same!(
                r.end,
                Found::No,
                "resolving {:?} in {:?}, where the walk does not list it",
                name,
                path
            );
            c.add("names_not_listed", 1);
        }
    }
    c.add("directories", dirs.len() as u64);
    c.add("names_listed", n);
    c.describe(|| format!("{} directories with {} entries: {}", dirs.len(), entries, log.brief()));
    if entries > 0 {
        c.counts(fp(&laid.cid));
    }
    Ok(())
}
