//! E01, S01, M01: everything together, symlinks, metadata.

use super::import::{import, Config, Feed};
use super::{Prop, EXPLORED, ORACLE};
use crate::drive::{cid_from, lookup, observe, seen, visit, walk, Found};
use crate::model::{self, lay_tree, Ink, Kind, Meta, MetaSeen, Shape, Shard, Slot, Store, Tree};
use crate::pbo::{self, Link, Msg};
use crate::util::{cid_of, fp, fp2, hex, hexs, Rng};
use crate::{ensure, same, Case, Fail, R};
use std::collections::BTreeMap;
use std::path::PathBuf;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::symlink::serialize_symlink_block;
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{FlatUnixFs, Metadata};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "E01",
        title: "Import, build, walk and resolve compose to the identity",
        run: e01,
        quick: 6000,
        rule: "random images of up to 40 entries (nested and empty directories, some with metadata, files of any size around chunk and link-block boundaries, symlinks) imported with random configurations and put in random order; the blocks are walked and every path, and paths that do not exist, are resolved segment by segment; counted when the image has an entry",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "S01",
        title: "Symlink blocks carry their target unchanged",
        run: s01,
        quick: 60000,
        rule: "targets of any text and length (empty, around the varint boundaries, up to 70 kB), appended to buffers with other contents and capacities; walked as root, in a directory and in a shard; all count",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "M01",
        title: "Mode and modification time are reported exactly",
        run: m01,
        quick: 80000,
        rule: "random and boundary modes and times, absent or present, in files of one and several blocks, directories, sharded directories and symlinks, in canonical and odd encodings, asked for at every interface; all count",
        assumptions: &[ORACLE, EXPLORED],
    },
];

// ---- E01 ---------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Item {
    Dir(Meta, BTreeMap<String, Item>),
    File(Config, Vec<u8>),
    Symlink(String),
}

fn file_item(rng: &mut Rng) -> Item {
    if rng.one_in(400) {
        let n = (rng.range(0, 3) * 256 * 1024 + rng.below(3)).saturating_sub(1);
        let mut v = rng.bytes(1000);
        v.resize(n as usize, 7);
        return Item::File(Config { chunk: None, k: None }, v);
    }
    let chunk = *rng.pick(&[1, 2, 3, 7, 16, 100, 256]);
    let k = *rng.pick(&[2, 3, 4, 10, 174]);
    let n = match rng.below(4) {
        0 => rng.usize(0, 3),
        1 => (chunk * rng.usize(0, k * k + 1)).min(3000),
        2 => (chunk * rng.usize(0, k * k + 1) + 1).min(3000),
        _ => rng.usize(0, chunk * 5),
    };
    let bytes = if rng.one_in(3) { vec![rng.next() as u8; n] } else { rng.bytes(n) };
    Item::File(
        Config {
            chunk: Some(chunk),
            k: Some(k),
        },
        bytes,
    )
}

fn text(rng: &mut Rng) -> String {
    if rng.one_in(4) {
        let t = text(rng);
        if t.len() < 500 {
            return model::variant(rng, &t);
        }
        return t;
    }
    match rng.below(6) {
        0 => String::new(),
        1 => "../b".into(),
        2 => "/".into(),
        3 => {
            let n = *rng.pick(&[1, 126, 127, 128, 129, 16383, 16384, 70_000, 255, 256]);
            let n = if n > 1000 && !rng.one_in(10) { 100 + n % 7 } else { n };
            "t".repeat(n)
        }
        4 => {
            let n = rng.usize(1, 40);
            (0..n)
                .map(|_| char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('\u{fffd}'))
                .collect()
        }
        _ => model::name(rng),
    }
}

fn dir_item(rng: &mut Rng, depth: usize, budget: &mut usize) -> Item {
    let n = if depth == 0 || *budget == 0 { 0 } else { rng.usize(0, 7) };
    let mut kids = BTreeMap::new();
    for name in model::distinct_names(rng, n) {
        *budget = budget.saturating_sub(1);
        let k = match rng.below(10) {
            0 | 1 => Item::Symlink(text(rng)),
            2..=5 => file_item(rng),
            _ => dir_item(rng, depth - 1, budget),
        };
        kids.insert(name, k);
    }
    let meta = if rng.one_in(3) { Meta::random(rng) } else { Meta::default() };
    Item::Dir(meta, kids)
}

#[derive(Debug)]
enum Step {
    Link(String, Vec<u8>, u64),
    Meta(String, Meta),
}

type Expect = BTreeMap<String, (Kind, MetaSeen, Vec<u8>, Option<Vec<u8>>)>;

fn bring_in(
    rng: &mut Rng,
    it: &Item,
    path: &str,
    store: &mut Store,
    steps: &mut Vec<Step>,
    expect: &mut Expect,
) -> R {
    match it {
        Item::Dir(meta, kids) => {
            if !path.is_empty() && (kids.is_empty() || *meta != Meta::default()) {
                steps.push(Step::Meta(path.to_string(), meta.clone()));
            }
            let m = if path.is_empty() { Default::default() } else { meta.seen() };
            expect.insert(path.to_string(), (Kind::Dir, m, Vec::new(), None));
            for (n, k) in kids {
                let p = if path.is_empty() { n.clone() } else { format!("{}/{}", path, n) };
                bring_in(rng, k, &p, store, steps, expect)?;
            }
        }
        Item::File(cfg, bytes) => {
            let got = import(cfg, bytes, &Feed::random(rng))?;
            let mut total = 0;
            for (c, b) in &got.blocks {
                store.map.insert(c.clone(), b.clone());
                total += b.len() as u64;
            }
            let root = got.blocks.last().unwrap().0.clone();
            steps.push(Step::Link(path.to_string(), root.clone(), total));
            expect.insert(
                path.to_string(),
                (Kind::File, Default::default(), bytes.clone(), Some(root)),
            );
        }
        Item::Symlink(target) => {
            let mut b = Vec::new();
            serialize_symlink_block(target, &mut b);
            let cid = cid_of(&b);
            steps.push(Step::Link(path.to_string(), cid.clone(), b.len() as u64));
            store.map.insert(cid.clone(), b);
            expect.insert(
                path.to_string(),
                (Kind::Symlink, Default::default(), target.clone().into_bytes(), Some(cid)),
            );
        }
    }
    Ok(())
}

fn metadata_of(m: &Meta) -> Metadata {
    let mut msg = Msg::of(pbo::DIR);
    m.into_msg(&mut msg);
    let block = pbo::enc_block(&[], &msg);
    let flat = FlatUnixFs::try_parse(&block)
        .unwrap_or_else(|e| crate::broken(format!("a plain directory does not parse: {:?}", e)));
    Metadata::from(&flat.data)
}

fn e01(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let mut budget = *rng.pick(&[3, 10, 25, 40]);
    let depth = *rng.pick(&[1, 2, 3, 5]);
    let image = dir_item(rng, depth, &mut budget);
    c.describe(|| format!("image {:?}", image));
    let mut store = Store::default();
    let mut steps = Vec::new();
    let mut expect = Expect::new();
    bring_in(rng, &image, "", &mut store, &mut steps, &mut expect)?;
    rng.shuffle(&mut steps);
    let mut o = TreeOptions::default();
    o.wrap_with_directory();
    let mut b = BufferingTreeBuilder::new(o);
    for s in &steps {
        let r = match s {
            Step::Link(p, cid, t) => b.put_link(p, cid_from(cid), *t),
            Step::Meta(p, m) => b.set_metadata(p, metadata_of(m)),
        };
        if let Err(e) = r {
            return Err(Fail(format!("{:?} is refused: {:?}", s, e)));
        }
    }
    let mut root = None;
    let mut dirs = BTreeMap::new();
    for n in b.build() {
        let n = n.map_err(|e| Fail(format!("building fails: {}", e)))?;
        let cid = n.cid.to_bytes();
        ensure!(
            cid == cid_of(&n.block),
            "the identifier of {:?} is not the one of its block",
            n.path
        );
        store.map.insert(cid.clone(), n.block.to_vec());
        dirs.insert(n.path, cid.clone());
        root = Some(cid);
    }
    let root = root.ok_or_else(|| Fail::new("a wrapped tree gives no root".into()))?;

    // walked, it is the image again
    let name = if rng.bool() { String::new() } else { "image".to_string() };
    let log = walk(&store, &root, &name, &mut None, store.map.len() * 50 + 10_000)?;
    ensure!(log.err.is_none(), "walking the image fails: {:?}", log.err);
    let mut got: Expect = BTreeMap::new();
    let mut cids: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (i, s) in log.steps.iter().enumerate() {
        let p = s.ev.path.to_str().ok_or_else(|| Fail::new("path is not text".into()))?;
        let p = if name.is_empty() {
            p.to_string()
        } else {
            let rest = p
                .strip_prefix(&name)
                .ok_or_else(|| Fail(format!("path {:?} does not start with {:?}", p, name)))?;
            rest.strip_prefix('/').unwrap_or(rest).to_string()
        };
        let kind = match s.ev.kind {
            Kind::Root => {
                same!(i, 0, "step of the root directory");
                Kind::Dir
            }
            k => k,
        };
        cids.insert(p.clone(), s.ev.cid.clone());
        if kind == Kind::File && !s.ev.first {
            let e = got
                .get_mut(&p)
                .ok_or_else(|| Fail(format!("later segment of {:?}, which did not start", p)))?;
            e.2.extend_from_slice(&s.ev.bytes);
            continue;
        }
        let link = if kind == Kind::Dir { None } else { Some(s.ev.cid.clone()) };
        let e = (kind, s.ev.meta.unwrap_or_default(), s.ev.bytes.clone(), link);
        ensure!(got.insert(p.clone(), e).is_none(), "{:?} is reported twice", p);
        if kind == Kind::File {
            same!(s.ev.total, expect.get(&p).map(|e| e.2.len() as u64).unwrap_or(0), "total size of {:?}", p);
        }
    }
    for (p, w) in &expect {
        match got.get(p) {
            Some(g) if g == w => {}
            Some(g) => {
                return Err(Fail(format!(
                    "{:?} comes back as {:?} {:?} {} {:?}, it was {:?} {:?} {} {:?}",
                    p,
                    g.0,
                    g.1,
                    hexs(&g.2),
                    g.3.as_deref().map(hex),
                    w.0,
                    w.1,
                    hexs(&w.2),
                    w.3.as_deref().map(hex)
                )))
            }
            None => return Err(Fail(format!("{:?} ({:?}) does not come back", p, w.0))),
        }
    }
    same!(got.len(), expect.len(), "number of entries that come back");

    // resolved segment by segment
    let mut resolved = 0;
    let resolve = |p: &str| -> Result<Result<Vec<u8>, String>, Fail> {
        let mut at = root.clone();
        for s in p.split('/').filter(|s| !s.is_empty()) {
            let block = match store.get(&at) {
                Some(_) => at.clone(),
                None => return Err(Fail(format!("{:?} leads to {}, which was not emitted", p, hex(&at)))),
            };
            match lookup(&store, &block, s, &mut None, None, 100)?.end {
                Found::Target(t) => at = t,
                Found::No => return Ok(Err("not found".into())),
                Found::Err(d, _) => return Ok(Err(d)),
            }
        }
        Ok(Ok(at))
    };
    for p in expect.keys() {
        let r = resolve(p)?;
        ensure!(
            r.as_ref().ok() == cids.get(p),
            "{:?} resolves to {:?}, the walk reports {:?}",
            p,
            r.map(|c| hex(&c)),
            cids.get(p).map(|c| hex(c))
        );
        if let Some(d) = dirs.get(p) {
            ensure!(Some(d) == cids.get(p), "{:?} was emitted as {}", p, hex(d));
        }
        resolved += 1;
        for _ in 0..2 {
            let no = match rng.below(4) {
                0 => format!("{}/{}", p, model::name(rng)),
                1 => format!("{}x", p),
                2 => format!("{}/x/{}", p, model::name(rng)),
                _ => {
                    let mut q = p.clone();
                    q.pop();
                    q
                }
            };
            let no = no.trim_start_matches('/').to_string();
            if expect.contains_key(&no) || no.split('/').any(|s| s.is_empty()) {
                continue;
            }
            let r = resolve(&no)?;
            ensure!(
                r.is_err(),
                "{:?} is not in the image, but resolves to {}",
                no,
                hex(&r.unwrap())
            );
            c.add("absent paths resolved", 1);
        }
    }
    // every file once more, alone and in part
    for (p, (kind, _, bytes, cid)) in &expect {
        if *kind != Kind::File || !rng.one_in(3) {
            continue;
        }
        let a = rng.below(bytes.len() as u64 + 2);
        let z = rng.below(bytes.len() as u64 + 2);
        let log = visit(&store, cid.as_ref().unwrap(), Some(a..z), &mut None, 10_000)?;
        let (x, y) = (a.min(bytes.len() as u64) as usize, z.min(bytes.len() as u64) as usize);
        let want = if x < y { &bytes[x..y] } else { &[][..] };
        ensure!(
            log.err.is_none() && log.bytes() == want,
            "bytes {:?} of {:?} come back as {}",
            a..z,
            p,
            log.brief()
        );
    }
    c.add("entries compared", expect.len() as u64);
    c.add("paths resolved", resolved);
    c.add("walk steps", log.steps.len() as u64);
    c.distinct(
        "image shapes",
        expect.iter().fold(0, |h, (p, e)| {
            fp2(h, p.matches('/').count() as u64 * 8 + e.0 as u64)
        }),
    );
    if expect.len() > 1 {
        c.counts(fp(&root));
    }
    Ok(())
}

// ---- S01 ---------------------------------------------------------------------------------------

fn s01(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let n = rng.usize(0, 40);
    let mut buffer = rng.bytes(n);
    if rng.bool() {
        buffer.reserve(rng.usize(0, 200));
    } else {
        buffer.shrink_to_fit();
    }
    let before = buffer.clone();
    let mut at = before.len();
    let rounds = rng.usize(1, 3);
    let mut all = before;
    for _ in 0..rounds {
        let t = if c.large.is_some() {
            let n = *rng.pick(&[1 << 12, 1 << 14, 1 << 16, 1 << 17, 1 << 20, 1 << 21, 3 << 20]) + rng.usize(0, 40) - 20;
            rng.pick(&["t", "é", "../", "a/"]).repeat(n)[..].chars().take(n).collect()
        } else {
            text(rng)
        };
        c.describe(|| format!("target {:?} onto {} bytes", t, at));
        serialize_symlink_block(&t, &mut buffer);
        let msg = Msg {
            ty: Some(pbo::SYMLINK),
            data: Some(t.clone().into_bytes()),
            ..Default::default()
        };
        let want = pbo::enc_block(&[], &msg);
        ensure!(
            buffer.len() >= at && buffer[..at] == all[..],
            "the contents of the buffer changed: {} became {}",
            hexs(&all),
            hexs(&buffer)
        );
        same!(hexs(&buffer[at..]), hexs(&want), "block for target {:?}", t);
        ensure!(buffer[at..] == want[..], "long block for target of {} bytes", t.len());
        all = buffer.clone();

        let mut store = Store::default();
        let cid = store.put(buffer[at..].to_vec(), 0);
        at = buffer.len();
        let dir = store.put(pbo::enc_block(&[Link::new(&cid, "s", 1)], &Msg::of(pbo::DIR)), 0);
        let shard = store.put(pbo::enc_block(&[Link::new(&cid, "A0s", 1)], &Msg::hamt()), 0);
        for (root, steps) in [(&cid, 1), (&dir, 2), (&shard, 2)] {
            let log = walk(&store, root, "r", &mut None, 5)?;
            ensure!(
                log.err.is_none() && log.steps.len() == steps,
                "walking the symlink to {:?}: {}",
                t,
                log.brief()
            );
            let e = &log.steps[steps - 1].ev;
            let path = if steps == 1 { "r" } else { "r/s" };
            ensure!(
                e.kind == Kind::Symlink
                    && e.cid == cid
                    && e.path == PathBuf::from(path)
                    && e.bytes == t.as_bytes()
                    && e.meta == Some((None, None)),
                "the symlink to {:?} is walked as {}",
                t,
                e.brief()
            );
            c.add("walks", 1);
        }
        c.add("symlinks", 1);
        c.distinct("target lengths", t.len() as u64);
        c.counts(fp2(fp(t.as_bytes()), at as u64));
    }
    Ok(())
}

// ---- M01 ---------------------------------------------------------------------------------------

fn m01(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let meta = Meta::random(rng);
    let want = meta.seen();
    let ink = Ink::random(rng);
    let mut store = Store::default();
    let what = c.idx % 5;
    let small = Tree::Symlink {
        meta: Meta::random(rng),
        target: b"t".to_vec(),
    };
    let tree = match what {
        0 => Tree::File {
            meta: meta.clone(),
            dag: Shape::random(rng).leaf(rng),
        },
        1 => Tree::File {
            meta: meta.clone(),
            dag: {
                let mut s = Shape::random(rng);
                let n = rng.usize(2, 9);
                model::balanced(rng, &mut s, n, 3)
            },
        },
        2 => Tree::Dir {
            meta: meta.clone(),
            kids: if rng.bool() { vec![("k".into(), small)] } else { vec![] },
        },
        3 => Tree::Hamt {
            meta: meta.clone(),
            root: Shard {
                slots: if rng.bool() {
                    vec![
                        (
                            "01".into(),
                            Slot::Bucket(Shard {
                                slots: vec![("02".into(), Slot::Entry("k".into(), small))],
                                bitfield: None,
                            }),
                        ),
                    ]
                } else {
                    vec![]
                },
                bitfield: None,
            },
        },
        _ => Tree::Symlink {
            meta: meta.clone(),
            target: model::target(rng),
        },
    };
    let laid = lay_tree(rng, &ink, &mut store, &tree, &PathBuf::from("r"), true);
    let label = ["file", "file of several blocks", "directory", "sharded directory", "symlink"][what as usize];
    c.describe(|| format!("{} with {:?}, root block {}", label, meta, hexs(store.get(&laid.cid).unwrap())));
    let block = store.get(&laid.cid).unwrap();

    // read from the message
    let flat = FlatUnixFs::try_parse(block).map_err(|e| Fail(format!("{} does not parse: {:?}", label, e)))?;
    let m = Metadata::from(&flat.data);
    same!(seen(&m), want, "{}: Metadata::from the message", label);
    let t = m.mtime_as_filetime();
    match (t, want.1) {
        (None, None) => {}
        (Some(t), Some((s, n))) => {
            ensure!(
                t.unix_seconds() == s && t.nanoseconds() == n,
                "{}: modification time {:?} becomes the file time {} {}",
                label,
                (s, n),
                t.unix_seconds(),
                t.nanoseconds()
            );
            c.add("file times", 1);
        }
        (t, w) => return Err(Fail(format!("{}: modification time {:?} becomes {:?}", label, w, t))),
    }
    ensure!(
        m == m.clone() && (m == Metadata::default()) == (want == (None, None)),
        "{}: comparison of {:?}",
        label,
        m
    );

    // by the walk: every step has it, or nothing (buckets), or what is below has its own
    let log = walk(&store, &laid.cid, "r", &mut None, laid.events.len() + 2)?;
    ensure!(log.err.is_none(), "{}: walking fails {:?}", label, log.err);
    for (s, w) in log.steps.iter().zip(&laid.events) {
        same!(s.ev.meta, w.meta, "{}: the walk at {:?}", label, s.ev.path);
        c.add("metadata compared", 1);
    }
    same!(log.steps[0].ev.meta, Some(want), "{}: first step of the walk", label);

    // nested, after something with other metadata
    let other = Tree::Symlink {
        meta: Meta::random(rng),
        target: b"o".to_vec(),
    };
    let other = lay_tree(
        rng,
        &Ink::plain(),
        &mut store,
        &other,
        &PathBuf::from("x"),
        false,
    );
    let mut dm = Msg::of(pbo::DIR);
    Meta::random(rng).into_msg(&mut dm);
    let dir = pbo::enc_block(
        &[
            Link::new(&other.cid, "a", 1),
            Link::new(&laid.cid, "b", 1),
            Link::new(&other.cid, "c", 1),
        ],
        &dm,
    );
    let dir = store.put(dir, 0);
    let log = walk(&store, &dir, "", &mut None, laid.events.len() + 5)?;
    ensure!(log.err.is_none(), "{}: walking a directory with it fails {:?}", label, log.err);
    let below: Vec<_> = log.steps[2..log.steps.len() - 1].iter().collect();
    same!(below.len(), laid.events.len(), "{}: steps in a directory", label);
    for (s, w) in below.iter().zip(&laid.events) {
        same!(s.ev.meta, w.meta, "{}: the walk of a directory at {:?}", label, s.ev.path);
        c.add("metadata compared", 1);
    }

    // by the item itself
    let mut w = Walker::new(cid_from(&laid.cid), String::new());
    let block = store.get(&laid.cid).unwrap();
    let item = w.next(block, &mut None).map_err(|e| Fail(format!("{}: {}", label, e)))?;
    let e = observe(&item, block, &laid.cid)?;
    same!(e.meta, Some(want), "{}: first item", label);
    if let ContinuedWalk::File(_, _, _, m, _) = &item {
        same!(seen(m), want, "{}: of the file item", label);
    }

    // by the file visit: at the start, and from the visit at every later point
    if what < 2 {
        let log = visit(&store, &laid.cid, None, &mut None, 100)?;
        ensure!(log.err.is_none(), "{}: visiting fails {:?}", label, log.err);
        for s in &log.steps {
            if let Some(m) = s.meta {
                same!(m, want, "{}: the visit after {}", label, model::tail(&s.block));
                c.add("metadata compared", 1);
            }
        }
        let (_, _, m, next) = IdleFileVisit::default()
            .with_target_range(0..1)
            .start(block)
            .map_err(|e| Fail(format!("{}: {}", label, e)))?;
        same!(seen(&m), want, "{}: ranged visit", label);
        if let Some(v) = next {
            same!(seen(v.as_ref()), want, "{}: of the ranged visit", label);
        }
    }
    c.distinct("kind and metadata", fp2(what, fp(format!("{:?}", meta).as_bytes())));
    c.counts(fp2(fp(&laid.cid), what));
    Ok(())
}
