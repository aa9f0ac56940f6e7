//! The oracle's own protobuf codec for dag-pb nodes and UnixFS messages, written from the wire format
//! and the two .proto files alone. It shares no code with the crate under test.

use crate::util::Rng;

pub const RAW: u64 = 0;
pub const DIR: u64 = 1;
pub const FILE: u64 = 2;
pub const META: u64 = 3;
pub const SYMLINK: u64 = 4;
pub const HAMT: u64 = 5;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Link {
    pub hash: Option<Vec<u8>>,
    pub name: Option<String>,
    pub tsize: Option<u64>,
}

impl Link {
    pub fn new(hash: &[u8], name: &str, tsize: u64) -> Link {
        Link {
            hash: Some(hash.to_vec()),
            name: Some(name.to_string()),
            tsize: Some(tsize),
        }
    }
    pub fn hash_bytes(&self) -> &[u8] {
        self.hash.as_deref().unwrap_or(&[])
    }
    pub fn name_str(&self) -> &str {
        self.name.as_deref().unwrap_or("")
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Msg {
    /// As on the wire; `None` when the field is left out.
    pub ty: Option<u64>,
    pub data: Option<Vec<u8>>,
    pub filesize: Option<u64>,
    pub blocksizes: Vec<u64>,
    pub hash_type: Option<u64>,
    pub fanout: Option<u64>,
    pub mode: Option<u32>,
    pub mtime: Option<(i64, Option<u32>)>,
}

impl Msg {
    pub fn of(ty: u64) -> Msg {
        Msg {
            ty: Some(ty),
            ..Default::default()
        }
    }
    pub fn hamt() -> Msg {
        Msg {
            ty: Some(HAMT),
            hash_type: Some(34),
            fanout: Some(256),
            ..Default::default()
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Node {
    pub links: Vec<Link>,
    pub data: Option<Vec<u8>>,
}

pub fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

/// A varint stretched to at least `len` bytes (at most ten).
pub fn varint_long(out: &mut Vec<u8>, v: u64, len: usize) {
    let mut tmp = Vec::new();
    varint(&mut tmp, v);
    while tmp.len() < len.min(10) {
        *tmp.last_mut().unwrap() |= 0x80;
        tmp.push(0);
    }
    out.extend(tmp);
}

fn tagged_varint(out: &mut Vec<u8>, field: u64, v: u64) {
    varint(out, field << 3);
    varint(out, v);
}

fn tagged_bytes(out: &mut Vec<u8>, field: u64, b: &[u8]) {
    varint(out, field << 3 | 2);
    varint(out, b.len() as u64);
    out.extend_from_slice(b);
}

pub fn enc_link(l: &Link) -> Vec<u8> {
    let mut o = Vec::new();
    if let Some(h) = &l.hash {
        tagged_bytes(&mut o, 1, h);
    }
    if let Some(n) = &l.name {
        tagged_bytes(&mut o, 2, n.as_bytes());
    }
    if let Some(t) = l.tsize {
        tagged_varint(&mut o, 3, t);
    }
    o
}

pub fn enc_time(t: &(i64, Option<u32>)) -> Vec<u8> {
    let mut o = Vec::new();
    tagged_varint(&mut o, 1, t.0 as u64);
    if let Some(n) = t.1 {
        o.push(2 << 3 | 5);
        o.extend_from_slice(&n.to_le_bytes());
    }
    o
}

/// Canonical UnixFS message: ascending field numbers.
pub fn enc_msg(m: &Msg) -> Vec<u8> {
    let mut o = Vec::new();
    if let Some(t) = m.ty {
        tagged_varint(&mut o, 1, t);
    }
    if let Some(d) = &m.data {
        tagged_bytes(&mut o, 2, d);
    }
    if let Some(f) = m.filesize {
        tagged_varint(&mut o, 3, f);
    }
    for b in &m.blocksizes {
        tagged_varint(&mut o, 4, *b);
    }
    if let Some(x) = m.hash_type {
        tagged_varint(&mut o, 5, x);
    }
    if let Some(x) = m.fanout {
        tagged_varint(&mut o, 6, x);
    }
    if let Some(x) = m.mode {
        tagged_varint(&mut o, 7, x as u64);
    }
    if let Some(t) = &m.mtime {
        tagged_bytes(&mut o, 8, &enc_time(t));
    }
    o
}

/// Canonical dag-pb node: links before data.
pub fn enc_node(n: &Node) -> Vec<u8> {
    let mut o = Vec::new();
    for l in &n.links {
        tagged_bytes(&mut o, 2, &enc_link(l));
    }
    if let Some(d) = &n.data {
        tagged_bytes(&mut o, 1, d);
    }
    o
}

/// Canonical block of a UnixFS node.
pub fn enc_block(links: &[Link], m: &Msg) -> Vec<u8> {
    enc_node(&Node {
        links: links.to_vec(),
        data: Some(enc_msg(m)),
    })
}

// ---- non canonical, but equivalent encodings ---------------------------------------------------

enum Raw {
    V(u64, u64),
    B(u64, Vec<u8>),
    F32(u64, [u8; 4]),
    F64(u64, [u8; 8]),
}

fn raw_out(rng: &mut Rng, out: &mut Vec<u8>, f: &Raw) {
    fn stretch(rng: &mut Rng) -> usize {
        if rng.one_in(4) {
            rng.usize(1, 10)
        } else {
            1
        }
    }
    match f {
        Raw::V(n, v) => {
            let l = if rng.one_in(8) { stretch(rng).min(5) } else { 1 };
            varint_long(out, n << 3, l);
            let l = stretch(rng);
            varint_long(out, *v, l);
        }
        Raw::B(n, b) => {
            let l = if rng.one_in(8) { stretch(rng).min(5) } else { 1 };
            varint_long(out, n << 3 | 2, l);
            let l = stretch(rng).min(5);
            varint_long(out, b.len() as u64, l);
            out.extend_from_slice(b);
        }
        Raw::F32(n, b) => {
            varint(out, n << 3 | 5);
            out.extend_from_slice(b);
        }
        Raw::F64(n, b) => {
            varint(out, n << 3 | 1);
            out.extend_from_slice(b);
        }
    }
}

fn unknown(rng: &mut Rng, above: u64) -> Raw {
    let n = if rng.bool() {
        rng.range(above, above + 3)
    } else {
        rng.range(above, (1 << 29) - 1)
    };
    match rng.below(4) {
        0 => Raw::V(n, rng.wide()),
        1 => {
            let l = rng.idx(6);
            Raw::B(n, rng.bytes(l))
        }
        2 => Raw::F32(n, (rng.next() as u32).to_le_bytes()),
        _ => Raw::F64(n, rng.next().to_le_bytes()),
    }
}

/// Shuffles the groups while keeping the order inside of each group, and sprinkles unknown fields
/// over them.
fn weave(rng: &mut Rng, groups: Vec<Vec<Raw>>, above: u64, shuffle: bool) -> Vec<u8> {
    let mut out = Vec::new();
    let mut groups: Vec<std::collections::VecDeque<Raw>> =
        groups.into_iter().map(|g| g.into()).collect();
    let noise = rng.one_in(3);
    loop {
        groups.retain(|g| !g.is_empty());
        if noise && rng.one_in(3) {
            let u = unknown(rng, above);
            raw_out(rng, &mut out, &u);
        }
        if groups.is_empty() {
            return out;
        }
        let i = if shuffle { rng.idx(groups.len()) } else { 0 };
        let f = groups[i].pop_front().unwrap();
        raw_out(rng, &mut out, &f);
    }
}

fn once(rng: &mut Rng, f: Raw, decoy: impl FnOnce(&mut Rng) -> Raw) -> Vec<Raw> {
    if rng.one_in(10) {
        // singular field given twice: the last one counts
        vec![decoy(rng), f]
    } else {
        vec![f]
    }
}

pub fn enc_link_odd(rng: &mut Rng, l: &Link) -> Vec<u8> {
    let mut g = Vec::new();
    if let Some(h) = &l.hash {
        g.push(once(rng, Raw::B(1, h.clone()), |r| Raw::B(1, r.bytes(3))));
    }
    if let Some(n) = &l.name {
        g.push(once(rng, Raw::B(2, n.as_bytes().to_vec()), |_| {
            Raw::B(2, b"decoy".to_vec())
        }));
    }
    if let Some(t) = l.tsize {
        g.push(once(rng, Raw::V(3, t), |r| Raw::V(3, r.wide())));
    }
    weave(rng, g, 4, true)
}

pub fn enc_msg_odd(rng: &mut Rng, m: &Msg) -> Vec<u8> {
    let mut g = Vec::new();
    if let Some(t) = m.ty {
        g.push(once(rng, Raw::V(1, t), |r| Raw::V(1, r.below(6))));
    }
    if let Some(d) = &m.data {
        g.push(once(rng, Raw::B(2, d.clone()), |r| Raw::B(2, r.bytes(2))));
    }
    if let Some(x) = m.filesize {
        g.push(once(rng, Raw::V(3, x), |r| Raw::V(3, r.wide())));
    }
    g.push(m.blocksizes.iter().map(|b| Raw::V(4, *b)).collect());
    if let Some(x) = m.hash_type {
        g.push(once(rng, Raw::V(5, x), |r| Raw::V(5, r.wide())));
    }
    if let Some(x) = m.fanout {
        g.push(once(rng, Raw::V(6, x), |r| Raw::V(6, r.wide())));
    }
    if let Some(x) = m.mode {
        g.push(once(rng, Raw::V(7, x as u64), |r| Raw::V(7, r.wide() as u32 as u64)));
    }
    if let Some(t) = &m.mtime {
        let secs = Raw::V(1, t.0 as u64);
        let mut tg = vec![once(rng, secs, |r| Raw::V(1, r.wide()))];
        if let Some(n) = t.1 {
            tg.push(vec![Raw::F32(2, n.to_le_bytes())]);
        }
        let b = weave(rng, tg, 3, true);
        g.push(vec![Raw::B(8, b)]);
    }
    weave(rng, g, 9, true)
}

pub fn enc_node_odd(rng: &mut Rng, n: &Node) -> Vec<u8> {
    let links = n
        .links
        .iter()
        .map(|l| Raw::B(2, enc_link_odd(rng, l)))
        .collect();
    let mut g = vec![links];
    if let Some(d) = &n.data {
        g.push(once(rng, Raw::B(1, d.clone()), |r| Raw::B(1, r.bytes(2))));
    }
    weave(rng, g, 3, true)
}

/// A block with the same meaning as `enc_block(links, m)`.
pub fn enc_block_odd(rng: &mut Rng, links: &[Link], m: &Msg) -> Vec<u8> {
    let data = enc_msg_odd(rng, m);
    enc_node_odd(
        rng,
        &Node {
            links: links.to_vec(),
            data: Some(data),
        },
    )
}

// ---- decoding ----------------------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Bad {
    /// Not a message of this kind.
    Malformed,
    /// A corner in which protobuf decoders differ legitimately: nothing is decided by this input.
    /// These are field number zero, groups, tags or lengths of more than 32 bits and packed encoding
    /// of the block sizes, an undefined type that a later one overrides, and a repeated time.
    Unclear,
}

type D<T> = Result<T, Bad>;

struct Rd<'a> {
    b: &'a [u8],
    at: usize,
}

enum Val<'a> {
    V(u64),
    B(&'a [u8], usize),
    F32([u8; 4]),
    F64,
}

impl<'a> Rd<'a> {
    fn varint(&mut self) -> D<u64> {
        let mut r = 0u64;
        for i in 0..10 {
            let b = *self.b.get(self.at).ok_or(Bad::Malformed)?;
            self.at += 1;
            let part = (b & 0x7f) as u64;
            if i < 9 {
                r |= part << (7 * i);
            } else {
                r |= (part & 1) << 63;
            }
            if b & 0x80 == 0 {
                return Ok(r);
            }
        }
        Err(Bad::Malformed)
    }

    fn take(&mut self, n: usize) -> D<&'a [u8]> {
        if self.b.len() - self.at < n {
            return Err(Bad::Malformed);
        }
        let s = &self.b[self.at..self.at + n];
        self.at += n;
        Ok(s)
    }

    fn field(&mut self) -> D<Option<(u64, Val<'a>)>> {
        if self.at == self.b.len() {
            return Ok(None);
        }
        let tag = self.varint()?;
        if tag > u32::MAX as u64 || tag >> 3 == 0 {
            return Err(Bad::Unclear);
        }
        let w = (tag & 7) as u8;
        let v = match w {
            0 => Val::V(self.varint()?),
            1 => {
                self.take(8)?;
                Val::F64
            }
            2 => {
                let l = self.varint()?;
                if l > u32::MAX as u64 {
                    return Err(Bad::Unclear);
                }
                let start = self.at;
                Val::B(self.take(l as usize)?, start)
            }
            5 => Val::F32(self.take(4)?.try_into().unwrap()),
            3 | 4 => return Err(Bad::Unclear),
            _ => return Err(Bad::Malformed),
        };
        Ok(Some((tag >> 3, v)))
    }
}

fn fields<'a>(b: &'a [u8], mut f: impl FnMut(u64, Val<'a>) -> D<()>) -> D<()> {
    let mut rd = Rd { b, at: 0 };
    while let Some((n, v)) = rd.field()? {
        f(n, v)?;
    }
    Ok(())
}

pub fn dec_link(b: &[u8]) -> D<Link> {
    let mut l = Link::default();
    fields(b, |n, v| {
        match (n, v) {
            (1, Val::B(x, _)) => l.hash = Some(x.to_vec()),
            (2, Val::B(x, _)) => {
                l.name = Some(String::from_utf8(x.to_vec()).map_err(|_| Bad::Malformed)?)
            }
            (3, Val::V(x)) => l.tsize = Some(x),
            _ => {}
        }
        Ok(())
    })?;
    Ok(l)
}

/// The node and where in the block its data field lies.
pub fn dec_node(b: &[u8]) -> D<(Node, Option<std::ops::Range<usize>>)> {
    let mut node = Node::default();
    let mut range = None;
    fields(b, |n, v| {
        match (n, v) {
            (1, Val::B(x, at)) => {
                node.data = Some(x.to_vec());
                range = Some(at..at + x.len());
            }
            (2, Val::B(x, _)) => node.links.push(dec_link(x)?),
            _ => {}
        }
        Ok(())
    })?;
    Ok((node, range))
}

pub fn dec_time(b: &[u8]) -> D<(i64, Option<u32>)> {
    let mut t = (0, None);
    fields(b, |n, v| {
        match (n, v) {
            (1, Val::V(x)) => t.0 = x as i64,
            (2, Val::F32(x)) => t.1 = Some(u32::from_le_bytes(x)),
            _ => {}
        }
        Ok(())
    })?;
    Ok(t)
}

pub fn dec_msg(b: &[u8]) -> D<Msg> {
    let mut m = Msg::default();
    let mut undefined = false;
    let mut times = 0;
    fields(b, |n, v| {
        match (n, v) {
            (1, Val::V(x)) => {
                let t = x as u32 as u64;
                undefined |= t > 5;
                m.ty = Some(t);
            }
            (2, Val::B(x, _)) => m.data = Some(x.to_vec()),
            (3, Val::V(x)) => m.filesize = Some(x),
            (4, Val::V(x)) => m.blocksizes.push(x),
            (4, Val::B(..)) => return Err(Bad::Unclear),
            (5, Val::V(x)) => m.hash_type = Some(x),
            (6, Val::V(x)) => m.fanout = Some(x),
            (7, Val::V(x)) => m.mode = Some(x as u32),
            (8, Val::B(x, _)) => {
                times += 1;
                m.mtime = Some(dec_time(x)?)
            }
            _ => {}
        }
        Ok(())
    })?;
    match m.ty {
        Some(t) if t > 5 => Err(Bad::Malformed),
        // an undefined type overridden by a defined one: decoders may stop at the first
        _ if undefined => Err(Bad::Unclear),
        // singular messages given twice: replaced by some decoders, merged by others
        _ if times > 1 => Err(Bad::Unclear),
        _ => Ok(m),
    }
}

/// Children of a block in link order, by their raw identifier bytes.
pub fn children(b: &[u8]) -> Vec<Vec<u8>> {
    match dec_node(b) {
        Ok((n, _)) => n.links.iter().map(|l| l.hash_bytes().to_vec()).collect(),
        Err(_) => Vec::new(),
    }
}
