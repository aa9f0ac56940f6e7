//! C01-C03: dag-pb and UnixFS messages on the wire.

use super::{Prop, EXPLORED, ORACLE};
use crate::drive::{lookup, Found};
use crate::model::{self, Meta, Store};
use crate::pbo::{self, Bad, Link, Msg, Node};
use crate::util::{fp, fp2, hexs, Rng};
use crate::{ensure, same, Case, Fail, R};
use quick_protobuf::{BytesWriter, MessageRead, MessageWrite, Writer};
use std::borrow::Cow;
use std::convert::TryFrom;
use unixfs_v1::dagpb::{node_data, wrap_node_data};
use unixfs_v1::{FlatUnixFs, PBLink, PBNode, UnixFs, UnixFsType};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        title: "Node data of a dag-pb block is exactly its data field",
        run: c01,
        quick: 200000,
        rule: "random dag-pb nodes with absent, empty and present data, before, between or after their links, in canonical and odd encodings, and mutated blocks; wrapped as slice, vector, box, and a view of a larger buffer; counted when the oracle decides the block",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "C02",
        title: "Encoding and decoding of nodes are inverse and sizes are exact",
        run: c02,
        quick: 150000,
        rule: "random links, nodes, messages and combined nodes with every field absent, empty, at varint boundaries or large, owned or borrowed; all count",
        assumptions: &[ORACLE, EXPLORED],
    },
    Prop {
        id: "C03",
        title: "Decoding follows the protobuf wire format on every input",
        run: c03,
        quick: 500000,
        rule: "well-formed blocks in odd encodings, blocks mutated by bits, bytes, lengths, truncation, splicing and repetition, and random field sequences, compared with an independent decoder; counted when the oracle decides the block",
        assumptions: &[ORACLE, EXPLORED, "Corners in which protobuf decoders differ legitimately (groups, field number zero, tags or lengths beyond 32 bits, packed block sizes, an undefined type overridden by a defined one, a repeated modification time) are only checked not to crash."],
    },
];

// ---- generators --------------------------------------------------------------------------------

thread_local! {
    /// Names, data and numbers of links and sizes of unusual extent.
    static LARGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// The case with long and many parts.
pub(super) fn large(c: &mut Case, run: fn(&mut Case) -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LARGE.with(|l| l.set(false));
        }
    }
    LARGE.with(|l| l.set(true));
    let _off = Off;
    c.add("cases of unusual extent", 1);
    run(c)
}

fn is_large() -> bool {
    LARGE.with(|l| l.get())
}

fn large_len(rng: &mut Rng) -> usize {
    let b = *rng.pick(&[1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 20, 1 << 21, 1 << 21, 3 << 20]);
    (b + rng.usize(0, 40)).saturating_sub(20)
}

fn len(rng: &mut Rng) -> usize {
    if is_large() && rng.one_in(3) {
        return large_len(rng);
    }
    match rng.below(20) {
        0 => 0,
        1 => *rng.pick(&[126, 127, 128, 129]),
        2 => {
            if rng.one_in(20) {
                *rng.pick(&[16382, 16383, 16384])
            } else {
                200
            }
        }
        _ => rng.usize(0, 12),
    }
}

fn some_text(rng: &mut Rng) -> String {
    match rng.below(5) {
        0 => String::new(),
        1 => {
            let n = len(rng);
            "é".repeat(n)
        }
        _ => model::name(rng),
    }
}

fn opt<T>(rng: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if rng.below(4) == 0 {
        None
    } else {
        Some(f(rng))
    }
}

fn number(rng: &mut Rng) -> u64 {
    if rng.one_in(4) {
        *rng.pick(&[0, 1, 127, 128, 16383, 16384, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX])
    } else {
        rng.wide()
    }
}

fn random_link(rng: &mut Rng) -> Link {
    Link {
        hash: opt(rng, |r| {
            if r.bool() {
                let n = r.usize(0, 3);
                let b = r.bytes(n);
                crate::util::cid_styled(&b, r.below(crate::util::STYLES) as u8)
            } else {
                let n = len(r);
                r.bytes(n)
            }
        }),
        name: opt(rng, some_text),
        tsize: opt(rng, number),
    }
}

pub fn random_msg(rng: &mut Rng) -> Msg {
    let full = rng.one_in(3);
    let mut m = Msg::of(rng.below(6));
    let o = |rng: &mut Rng| full || rng.one_in(3);
    if o(rng) {
        let n = len(rng);
        m.data = Some(rng.bytes(n));
    }
    if o(rng) {
        m.filesize = Some(number(rng));
    }
    if o(rng) {
        let n = if is_large() && rng.one_in(3) { large_len(rng) / 8 } else { rng.usize(0, 5) };
        m.blocksizes = (0..n).map(|_| number(rng)).collect();
    }
    if o(rng) {
        m.hash_type = Some(number(rng));
    }
    if o(rng) {
        m.fanout = Some(number(rng));
    }
    if o(rng) {
        Meta::random(rng).into_msg(&mut m);
    }
    m
}

fn random_node(rng: &mut Rng) -> Node {
    let n = *rng.pick(&[0, 0, 1, 1, 2, 3, 5, 12]);
    let mut links: Vec<Link> = (0..n).map(|_| random_link(rng)).collect();
    if is_large() && rng.one_in(3) {
        // tens of thousands of them
        let n = rng.usize(60_000, 75_000);
        for i in 0..n {
            links.push(Link {
                hash: Some(vec![i as u8; i % 7]),
                name: Some(format!("{}", i)),
                tsize: Some(i as u64),
            });
        }
    }
    Node {
        links,
        data: opt(rng, |r| match r.below(4) {
            0 => Vec::new(),
            1 => {
                let n = len(r);
                r.bytes(n)
            }
            _ => {
                let m = random_msg(r);
                if r.one_in(3) {
                    pbo::enc_msg_odd(r, &m)
                } else {
                    pbo::enc_msg(&m)
                }
            }
        }),
    }
}

/// One block and something else made out of it.
pub fn mutate(rng: &mut Rng, b: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..rng.usize(1, 3) {
        let n = b.len();
        match rng.below(9) {
            0 if n > 0 => {
                let i = rng.idx(n);
                b[i] ^= 1 << rng.below(8);
            }
            1 if n > 0 => {
                let i = rng.idx(n);
                b[i] = *rng.pick(&[0, 1, 2, 0x0a, 0x12, 0x7f, 0x80, 0xff, 8, 18, 24, 32]);
            }
            2 => {
                let i = rng.idx(n + 1);
                b.truncate(i);
            }
            3 => {
                let i = rng.idx(n + 1);
                let k = rng.usize(1, 4);
                let x = rng.bytes(k);
                b.splice(i..i, x);
            }
            4 if n > 0 => {
                let i = rng.idx(n);
                let j = rng.usize(i, n);
                b.drain(i..j);
            }
            5 if n > 0 => {
                let i = rng.idx(n);
                let j = rng.usize(i, n);
                let x = b[i..j].to_vec();
                let at = rng.idx(n + 1);
                b.splice(at..at, x);
            }
            6 => {
                let i = rng.idx(n + 1);
                let j = rng.idx(other.len() + 1);
                b.truncate(i);
                b.extend_from_slice(&other[j..]);
            }
            7 if n > 0 => {
                // a varint that says a lot more
                let i = rng.idx(n);
                let mut v = Vec::new();
                pbo::varint(&mut v, number(rng));
                b.splice(i..i + 1, v);
            }
            _ => b.extend_from_slice(other),
        }
    }
}

/// Fields of all kinds in any order, nested where they are nested.
pub fn soup(rng: &mut Rng, level: u64) -> Vec<u8> {
    let mut out = Vec::new();
    for _ in 0..rng.below(6) {
        let field = if rng.one_in(10) { rng.below(1 << 20) + 1 } else { rng.range(1, 9) };
        let wire = *rng.pick(&[0, 0, 2, 2, 2, 5, 1]);
        let stretch = if rng.one_in(6) { rng.usize(1, 5) } else { 1 };
        pbo::varint_long(&mut out, field << 3 | wire, stretch);
        match wire {
            0 => {
                let v = if rng.bool() { rng.below(7) } else { number(rng) };
                let stretch = if rng.one_in(6) { rng.usize(1, 10) } else { 1 };
                pbo::varint_long(&mut out, v, stretch);
            }
            1 => out.extend_from_slice(&rng.bytes(8)),
            5 => out.extend_from_slice(&rng.bytes(4)),
            _ => {
                let inner = if level < 3 && rng.bool() {
                    soup(rng, level + 1)
                } else {
                    let n = rng.usize(0, 6);
                    if rng.bool() {
                        rng.bytes(n)
                    } else {
                        "abcdef".as_bytes()[..n].to_vec()
                    }
                };
                let mut l = inner.len() as u64;
                if rng.one_in(12) {
                    l = l.wrapping_add(rng.below(3)).wrapping_sub(1) & 0xffff_ffff;
                }
                pbo::varint(&mut out, l);
                out.extend(inner);
            }
        }
    }
    out
}

pub fn some_block(rng: &mut Rng) -> Vec<u8> {
    let n = random_node(rng);
    if rng.bool() {
        pbo::enc_node_odd(rng, &n)
    } else {
        pbo::enc_node(&n)
    }
}

/// The encoder puts data last; others put it first.
fn data_first(n: &Node) -> Vec<u8> {
    let mut b = pbo::enc_node(&Node {
        links: Vec::new(),
        data: n.data.clone(),
    });
    b.extend(pbo::enc_node(&Node {
        links: n.links.clone(),
        data: None,
    }));
    b
}

// ---- C01 ---------------------------------------------------------------------------------------

struct View {
    all: Vec<u8>,
    at: usize,
    len: usize,
}

impl AsRef<[u8]> for View {
    fn as_ref(&self) -> &[u8] {
        &self.all[self.at..self.at + self.len]
    }
}

fn c01(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let n = random_node(rng);
    let mut block = match rng.below(4) {
        0 => pbo::enc_node_odd(rng, &n),
        1 => data_first(&n),
        _ => pbo::enc_node(&n),
    };
    if rng.one_in(3) {
        let other = some_block(rng);
        mutate(rng, &mut block, &other);
    }
    c.describe(|| format!("block {}", hexs(&block)));
    let got = node_data(&block);
    let want = pbo::dec_node(&block);
    let wrapped = wrap_node_data(&block[..]);
    let range = match want {
        Err(Bad::Unclear) => {
            c.add("undecided blocks", 1);
            ensure!(
                got.is_ok() == wrapped.is_ok(),
                "node_data() and wrap_node_data() disagree on {}",
                hexs(&block)
            );
            return Ok(());
        }
        Err(Bad::Malformed) => {
            ensure!(got.is_err(), "{} is not dag-pb, node data {:?}", hexs(&block), got.map(|d| d.map(hexs)));
            ensure!(wrapped.is_err(), "{} is not dag-pb, but can be wrapped", hexs(&block));
            c.add("blocks refused", 1);
            c.counts(fp(&block));
            return Ok(());
        }
        Ok((_, range)) => range,
    };
    let got = got.map_err(|e| Fail(format!("{} is refused: {}", hexs(&block), e)))?;
    match (got, &range) {
        (None, None) => {}
        (Some(g), Some(r)) => {
            ensure!(
                *g == block[r.clone()],
                "node data of {} is {}, expected {}",
                hexs(&block),
                hexs(g),
                hexs(&block[r.clone()])
            );
            ensure!(
                g.is_empty() || g.as_ptr() == block[r.clone()].as_ptr(),
                "node data of {} is not where it lies in the block",
                hexs(&block)
            );
        }
        (g, r) => return Err(Fail(format!("node data of {} is {:?}, expected {:?}", hexs(&block), g.map(hexs), r))),
    }
    let want: Vec<u8> = range.clone().map(|r| block[r].to_vec()).unwrap_or_default();
    let show = hexs(&block);
    let wrapped = wrapped.map_err(|e| Fail(format!("{} cannot be wrapped: {}", show, e)))?;
    check_wrapped(wrapped, &block, &want, rng)?;
    let w = wrap_node_data(block.clone()).map_err(|e| Fail(format!("{} cannot be wrapped: {}", show, e)))?;
    let moved = Box::new(w);
    check_wrapped(*moved, &block, &want, rng)?;
    let w = wrap_node_data(block.clone().into_boxed_slice())
        .map_err(|e| Fail(format!("{} cannot be wrapped: {}", show, e)))?;
    check_wrapped(w, &block, &want, rng)?;
    let at = rng.idx(20);
    let mut all = rng.bytes(at);
    all.extend_from_slice(&block);
    let more = rng.idx(20);
    all.extend(rng.bytes(more));
    let v = View {
        all,
        at,
        len: block.len(),
    };
    let w = wrap_node_data(v).map_err(|e| Fail(format!("{} cannot be wrapped: {}", show, e)))?;
    check_wrapped(w, &block, &want, rng)?;
    c.add("blocks wrapped", 4);
    c.add(
        match &range {
            None => "without data",
            Some(r) if r.is_empty() => "with empty data",
            Some(_) => "with data",
        },
        1,
    );
    c.counts(fp(&block));
    Ok(())
}

fn check_wrapped<T: AsRef<[u8]>>(
    w: unixfs_v1::dagpb::NodeData<T>,
    block: &[u8],
    want: &[u8],
    rng: &mut Rng,
) -> R {
    let _ = format!("{:?}", w);
    ensure!(
        w.node_data() == want,
        "wrapped data of {} is {}, expected {}",
        hexs(block),
        hexs(w.node_data()),
        hexs(want)
    );
    ensure!(
        w.get_ref().as_ref() == block,
        "the wrapped block is {} instead of {}",
        hexs(w.get_ref().as_ref()),
        hexs(block)
    );
    if !want.is_empty() {
        let b = w.get_ref().as_ref();
        let p = w.node_data().as_ptr() as usize;
        let s = b.as_ptr() as usize;
        ensure!(
            p >= s && p + want.len() <= s + b.len(),
            "the wrapped data of {} is not a part of it",
            hexs(block)
        );
    }
    ensure!(w == want.to_vec(), "the wrapped {} is not equal to its data", hexs(block));
    let mut other = want.to_vec();
    if other.is_empty() || rng.bool() {
        other.push(rng.next() as u8);
    } else {
        let i = rng.idx(other.len());
        other[i] ^= 1 << rng.below(8);
    }
    ensure!(w != other, "the wrapped {} is equal to {}", hexs(block), hexs(&other));
    if !want.is_empty() {
        ensure!(
            w != want[1..].to_vec(),
            "the wrapped {} is equal to a part of its data",
            hexs(block)
        );
    }
    let back = w.into_inner();
    ensure!(back.as_ref() == block, "into_inner() returns another block");
    Ok(())
}

// ---- C02 ---------------------------------------------------------------------------------------

fn cow_bytes<'a>(rng: &mut Rng, b: &'a [u8]) -> Cow<'a, [u8]> {
    if rng.bool() {
        Cow::Borrowed(b)
    } else {
        Cow::Owned(b.to_vec())
    }
}

fn link_value<'a>(rng: &mut Rng, l: &'a Link) -> PBLink<'a> {
    PBLink {
        Hash: l.hash.as_ref().map(|h| cow_bytes(rng, h)),
        Name: l.name.as_ref().map(|n| {
            if rng.bool() {
                Cow::Borrowed(n.as_str())
            } else {
                Cow::Owned(n.clone())
            }
        }),
        Tsize: l.tsize,
    }
}

fn type_of(n: u64) -> UnixFsType {
    match n {
        0 => UnixFsType::Raw,
        1 => UnixFsType::Directory,
        2 => UnixFsType::File,
        3 => UnixFsType::Metadata,
        4 => UnixFsType::Symlink,
        5 => UnixFsType::HAMTShard,
        _ => panic!("not a type"),
    }
}

/// The type of the time field has no public name: it is had by reading one.
fn msg_value<'a>(rng: &mut Rng, m: &'a Msg) -> UnixFs<'a> {
    let mut v = UnixFs {
        Type: type_of(m.ty.unwrap_or(0)),
        Data: m.data.as_ref().map(|d| cow_bytes(rng, d)),
        filesize: m.filesize,
        blocksizes: m.blocksizes.clone(),
        hashType: m.hash_type,
        fanout: m.fanout,
        mode: m.mode,
        mtime: None,
    };
    if let Some((s, n)) = m.mtime {
        let only = pbo::enc_msg(&Msg {
            ty: Some(0),
            mtime: Some((0, Some(0))),
            ..Default::default()
        });
        v.mtime = UnixFs::try_from(Some(&only[..])).ok().and_then(|v| v.mtime);
        let t = match v.mtime.as_mut() {
            Some(t) => t,
            None => crate::broken(format!("no modification time is read out of {}", hexs(&only))),
        };
        t.Seconds = s;
        t.FractionalNanoseconds = n;
    }
    v
}

fn written<M: MessageWrite>(m: &M, what: &str) -> Result<Vec<u8>, Fail> {
    let mut out = Vec::new();
    m.write_message(&mut Writer::new(&mut out))
        .map_err(|e| Fail(format!("writing a {} fails: {}", what, e)))?;
    ensure!(
        m.get_size() == out.len(),
        "a {} announces {} bytes and writes {}: {}",
        what,
        m.get_size(),
        out.len(),
        hexs(&out)
    );
    // into a buffer of exactly the announced size
    let mut exact = vec![0u8; out.len()];
    m.write_message(&mut Writer::new(BytesWriter::new(&mut exact[..])))
        .map_err(|e| Fail(format!("writing a {} into a buffer of its size fails: {}", what, e)))?;
    ensure!(exact == out, "a {} is written in two ways", what);
    Ok(out)
}

fn is_type(t: UnixFsType) -> u64 {
    i32::from(t) as u64
}

fn same_msg(v: &UnixFs<'_>, m: &Msg) -> bool {
    is_type(v.Type) == m.ty.unwrap_or(0)
        && v.Data.as_deref() == m.data.as_deref()
        && v.filesize == m.filesize
        && v.blocksizes == m.blocksizes
        && v.hashType == m.hash_type
        && v.fanout == m.fanout
        && v.mode == m.mode
        && v.mtime.as_ref().map(|t| (t.Seconds, t.FractionalNanoseconds)) == m.mtime
}

fn same_link(v: &PBLink<'_>, l: &Link) -> bool {
    v.Hash.as_deref() == l.hash.as_deref() && v.Name.as_deref() == l.name.as_deref() && v.Tsize == l.tsize
}

fn same_links(v: &[PBLink<'_>], l: &[Link]) -> bool {
    v.len() == l.len() && v.iter().zip(l).all(|(a, b)| same_link(a, b))
}

fn c02(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let what = c.idx % 4;
    let label = ["link", "node", "message", "combined node"][what as usize];
    let bytes = match what {
        0 => {
            let l = random_link(rng);
            let v = link_value(rng, &l);
            c.describe(|| format!("{:?}", v));
            let b = written(&v, label)?;
            same!(hexs(&b), hexs(&pbo::enc_link(&l)), "bytes of {:?}", v);
            ensure!(b == pbo::enc_link(&l), "bytes of {:?}", v);
            let mut r = quick_protobuf::BytesReader::from_bytes(&b);
            let back = PBLink::from_reader(&mut r, &b).map_err(|e| Fail(format!("{:?} does not parse: {}", v, e)))?;
            ensure!(back == v, "{:?} becomes {:?}", v, back);
            ensure!(same_link(&back, &l), "{:?} is read as {:?}", l, back);
            b
        }
        1 => {
            let n = random_node(rng);
            let v = PBNode {
                Links: n.links.iter().map(|l| link_value(rng, l)).collect(),
                Data: n.data.as_ref().map(|d| cow_bytes(rng, d)),
            };
            c.describe(|| format!("{:?}", v));
            let b = written(&v, label)?;
            ensure!(b == pbo::enc_node(&n), "{:?} is written as {}", v, hexs(&b));
            let back = PBNode::try_from(&b[..]).map_err(|e| Fail(format!("{:?} does not parse: {}", v, e)))?;
            ensure!(back == v, "{:?} becomes {:?}", v, back);
            ensure!(
                same_links(&back.Links, &n.links) && back.Data.as_deref() == n.data.as_deref(),
                "{:?} is read as {:?}",
                n,
                back
            );
            let again = written(&back, label)?;
            ensure!(again == b, "{} is written again as {}", hexs(&b), hexs(&again));
            b
        }
        2 => {
            let m = random_msg(rng);
            let v = msg_value(rng, &m);
            c.describe(|| format!("{:?}", v));
            let b = written(&v, label)?;
            ensure!(
                b == pbo::enc_msg(&m),
                "{:?} is written as {}, expected {}",
                v,
                hexs(&b),
                hexs(&pbo::enc_msg(&m))
            );
            let back = UnixFs::try_from(Some(&b[..])).map_err(|e| Fail(format!("{:?} does not parse: {}", v, e)))?;
            ensure!(back == v, "{:?} becomes {:?}", v, back);
            ensure!(same_msg(&back, &m), "{:?} is read as {:?}", m, back);
            let again = written(&back, label)?;
            ensure!(again == b, "{} is written again as {}", hexs(&b), hexs(&again));
            b
        }
        _ => {
            let n = random_node(rng);
            let m = random_msg(rng);
            let v = FlatUnixFs {
                links: n.links.iter().map(|l| link_value(rng, l)).collect(),
                data: msg_value(rng, &m),
            };
            c.describe(|| format!("{:?}", v));
            let b = written(&v, label)?;
            let want = pbo::enc_block(&n.links, &m);
            ensure!(b == want, "{:?} is written as {}, expected {}", v, hexs(&b), hexs(&want));
            let back = FlatUnixFs::try_parse(&b).map_err(|e| Fail(format!("{:?} does not parse: {}", v, e)))?;
            ensure!(
                back.links == v.links && back.data == v.data,
                "{:?} becomes {:?}",
                v,
                back
            );
            ensure!(
                same_links(&back.links, &n.links) && same_msg(&back.data, &m),
                "{:?} {:?} are read as {:?}",
                n.links,
                m,
                back
            );
            let again = written(&back, label)?;
            ensure!(again == b, "{} is written again as {}", hexs(&b), hexs(&again));
            // as a node with data: the same bytes
            let node = PBNode::try_from(&b[..]).map_err(|e| Fail(format!("{} is not a node: {}", hexs(&b), e)))?;
            ensure!(written(&node, "node")? == b, "{} is written differently as a node", hexs(&b));
            let inner = UnixFs::try_from(&node).map_err(|e| Fail(format!("{} has no message: {}", hexs(&b), e)))?;
            ensure!(inner == v.data, "{:?} becomes {:?}", v.data, inner);
            b
        }
    };
    c.add(
        ["links", "nodes", "messages", "combined nodes"][what as usize],
        1,
    );
    c.add("bytes written", bytes.len() as u64);
    c.counts(fp2(fp(&bytes), what));
    Ok(())
}

// ---- C03 ---------------------------------------------------------------------------------------

fn c03(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    let mut block = match rng.below(5) {
        0 => soup(rng, 0),
        1 => {
            // something that is a node, around something that may be a message
            let data = soup(rng, 1);
            let mut n = random_node(rng);
            n.data = Some(data);
            pbo::enc_node(&n)
        }
        _ => some_block(rng),
    };
    if rng.bool() {
        let other = some_block(rng);
        mutate(rng, &mut block, &other);
    }
    c.describe(|| format!("block {}", hexs(&block)));
    let show = || crate::util::hex(&block[..block.len().min(400)]);
    let got = FlatUnixFs::try_parse(&block);
    let debug = got.as_ref().err().map(|e| format!("{:?} {}", e, e)).unwrap_or_default();
    let variant = crate::drive::variant(&debug);
    let node = PBNode::try_from(&block[..]);
    let want = pbo::dec_node(&block);
    let (n, _) = match want {
        Err(Bad::Unclear) => {
            c.add("undecided", 1);
            return Ok(());
        }
        Err(Bad::Malformed) => {
            ensure!(node.is_err(), "{} is not dag-pb, but read as {:?}", show(), node);
            ensure!(
                variant == "InvalidDagPb",
                "{} is not dag-pb, but as UnixFS it gives {:?}",
                show(),
                got.map_err(|e| e.to_string())
            );
            c.add("not dag-pb", 1);
            c.counts(fp(&block));
            return Ok(());
        }
        Ok(n) => n,
    };
    let node = node.map_err(|e| Fail(format!("{} is dag-pb, but refused: {}", show(), e)))?;
    ensure!(
        same_links(&node.Links, &n.links) && node.Data.as_deref() == n.data.as_deref(),
        "{} is {:?}, but read as {:?}",
        show(),
        n,
        node
    );
    let data = n.data.clone().unwrap_or_default();
    let msg = pbo::dec_msg(&data);
    let alone = UnixFs::try_from(Some(&data[..]));
    let within = UnixFs::try_from(&node);
    let unreadable = if data.is_empty() {
        ensure!(
            variant == "NoData",
            "{} has no data, but gives {:?} {}",
            show(),
            got.as_ref().ok(),
            debug
        );
        c.add("no message", 1);
        true
    } else {
        match msg {
            Err(Bad::Unclear) => {
                c.add("undecided", 1);
                return Ok(());
            }
            Err(Bad::Malformed) => {
                ensure!(
                    variant == "InvalidUnixFs",
                    "the message of {} is malformed, but it gives {:?} {}",
                    show(),
                    got.as_ref().ok(),
                    debug
                );
                ensure!(
                    alone.is_err() && within.is_err(),
                    "the message {} is malformed, but read as {:?}",
                    hexs(&data),
                    alone
                );
                c.add("malformed message", 1);
                true
            }
            Ok(m) => {
                let flat = got.map_err(|e| Fail(format!("{} is refused: {:?}", show(), e)))?;
                ensure!(
                    same_links(&flat.links, &n.links),
                    "the links of {} are {:?}, but read as {:?}",
                    show(),
                    n.links,
                    flat.links
                );
                ensure!(
                    same_msg(&flat.data, &m),
                    "the message of {} is {:?}, but read as {:?}",
                    show(),
                    m,
                    flat.data
                );
                for (who, v) in [("alone", alone), ("within its node", within)] {
                    let v = v.map_err(|e| Fail(format!("the message {} is refused {}: {}", hexs(&data), who, e)))?;
                    ensure!(
                        same_msg(&v, &m),
                        "the message {} is {:?}, but read {} as {:?}",
                        hexs(&data),
                        m,
                        who,
                        v
                    );
                }
                c.add("messages compared", 1);
                c.distinct("shapes of messages", {
                    let b = |x: bool| x as u64;
                    b(m.data.is_some())
                        | b(m.filesize.is_some()) << 1
                        | b(m.hash_type.is_some()) << 2
                        | b(m.fanout.is_some()) << 3
                        | b(m.mode.is_some()) << 4
                        | b(m.mtime.is_some()) << 5
                        | m.ty.unwrap_or(9) << 8
                        | (m.blocksizes.len() as u64) << 16
                });
                false
            }
        }
    };
    if unreadable {
        // the links are still there
        let mut store = Store::default();
        store.map.insert(b"block".to_vec(), block.clone());
        for l in n.links.iter().take(4) {
            let cid = libipld::Cid::try_from(l.hash_bytes());
            let alike = n.links.iter().filter(|o| o.name_str() == l.name_str()).count();
            if let (Ok(cid), 1) = (cid, alike) {
                let end = lookup(&store, b"block", l.name_str(), &mut None, None, 3)?.end;
                ensure!(
                    end == Found::Target(cid.to_bytes()),
                    "the link {:?} of {} resolves to {:?}",
                    l.name,
                    show(),
                    end
                );
                c.add("links of nodes without a message", 1);
            }
        }
    }
    c.counts(fp(&block));
    Ok(())
}
