//! Small self-contained helpers: deterministic random numbers, hashes and the oracle's own idea of a
//! content identifier. Nothing in here uses the crate under test.

/// xoshiro256** seeded with splitmix64.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            *v = mix(x);
        }
        Rng { s }
    }

    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in `0..n`, zero for `n == 0`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        if hi - lo == u64::MAX {
            return self.next();
        }
        lo + self.below(hi - lo + 1)
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    /// True once in `n`.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }

    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }

    /// A number whose magnitude is spread evenly over the bit lengths, boundaries included.
    pub fn wide(&mut self) -> u64 {
        match self.below(8) {
            0 => *self.pick(&[
                0,
                1,
                127,
                128,
                255,
                256,
                (1 << 31) - 1,
                1 << 31,
                (1 << 32) - 1,
                1 << 32,
                (1 << 56) - 1,
                1 << 63,
                (1 << 63) - 1,
                u64::MAX - 1,
                u64::MAX,
            ]),
            _ => {
                let bits = self.below(65);
                if bits == 0 {
                    0
                } else {
                    self.next() >> (64 - bits)
                }
            }
        }
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.idx(i + 1);
            xs.swap(i, j);
        }
    }
}

/// FNV-1a with a final mix, for fingerprints of cases.
pub fn fp(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

pub fn fp2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b).rotate_left(17))
}

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];

pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
        0x5be0cd19,
    ];

    let mut block = |c: &[u8]| {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16]
                .wrapping_add(s0)
                .wrapping_add(w[i - 7])
                .wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add(K[i])
                .wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [
                t1.wrapping_add(t2),
                v[0],
                v[1],
                v[2],
                v[3].wrapping_add(t1),
                v[4],
                v[5],
                v[6],
            ];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    };

    let mut chunks = data.chunks_exact(64);
    for c in &mut chunks {
        block(c);
    }
    let rest = chunks.remainder();
    let mut tail = rest.to_vec();
    tail.push(0x80);
    while tail.len() % 64 != 56 {
        tail.push(0);
    }
    tail.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in tail.chunks_exact(64) {
        block(c);
    }
    let mut out = [0; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

/// Bytes of the version 1, dag-pb, sha2-256 identifier of the block.
pub fn cid_of(block: &[u8]) -> Vec<u8> {
    let mut v = vec![0x01, 0x70, 0x12, 0x20];
    v.extend_from_slice(&sha256(block));
    v
}

/// The identifier in the given style: 0 => v1 dag-pb, 1 => v0, 2 => v1 raw codec (for links whose
/// target is never looked into), otherwise version 1 with another codec, hash function or digest
/// length, some of them with multi-byte numbers.
pub fn cid_styled(block: &[u8], style: u8) -> Vec<u8> {
    let plain = cid_of(block);
    let digest = &plain[4..];
    let with = |codec: u64, hash: u64, digest: &[u8]| {
        let mut v = vec![0x01];
        for n in [codec, hash, digest.len() as u64] {
            crate::pbo::varint(&mut v, n);
        }
        v.extend_from_slice(digest);
        v
    };
    match style {
        0 => plain,
        1 => plain[2..].to_vec(),
        2 => with(0x55, 0x12, digest),
        3 => with(0x70, 0xb220, digest),
        4 => with(0x0129, 0x12, digest),
        5 => with(0x71, 0x13, &[digest, digest].concat()),
        6 => with(0x70, 0x00, &digest[..16]),
        7 => with(0x300000 + u64::from(digest[0]), 0x12, digest),
        8 => with(0x70, 0x12, &digest[..20]),
        10 => with(0x55, 0x11, &digest[..20]),
        11 => with(0x78, 0x1b, digest),
        12 => with(0x00, 0x12, digest),
        13 => with(0x55, 0x00, &[digest, &digest[..digest[0] as usize % 32]].concat()),
        _ => with((1 << 56) + u64::from(digest[0]), 0xb240, &[digest, digest].concat()),
    }
}

/// Number of styles.
pub const STYLES: u64 = 15;

/// First 8 bytes of the x64 128-bit murmur3 with seed 0, big endian: what go-ipfs uses to place
/// names in HAMT shards.
pub fn murmur3_h1(data: &[u8]) -> u64 {
    const C1: u64 = 0x87c3_7b91_1142_53d5;
    const C2: u64 = 0x4cf5_ad43_2745_937f;
    fn fmix(mut k: u64) -> u64 {
        k ^= k >> 33;
        k = k.wrapping_mul(0xff51_afd7_ed55_8ccd);
        k ^= k >> 33;
        k = k.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        k ^ (k >> 33)
    }
    let (mut h1, mut h2) = (0u64, 0u64);
    let mut it = data.chunks_exact(16);
    for c in &mut it {
        let k1 = u64::from_le_bytes(c[..8].try_into().unwrap());
        let k2 = u64::from_le_bytes(c[8..].try_into().unwrap());
        h1 ^= k1.wrapping_mul(C1).rotate_left(31).wrapping_mul(C2);
        h1 = h1
            .rotate_left(27)
            .wrapping_add(h2)
            .wrapping_mul(5)
            .wrapping_add(0x52dc_e729);
        h2 ^= k2.wrapping_mul(C2).rotate_left(33).wrapping_mul(C1);
        h2 = h2
            .rotate_left(31)
            .wrapping_add(h1)
            .wrapping_mul(5)
            .wrapping_add(0x3849_5ab5);
    }
    let t = it.remainder();
    let mut pad = [0u8; 16];
    pad[..t.len()].copy_from_slice(t);
    let k1 = u64::from_le_bytes(pad[..8].try_into().unwrap());
    let k2 = u64::from_le_bytes(pad[8..].try_into().unwrap());
    if t.len() > 8 {
        h2 ^= k2.wrapping_mul(C2).rotate_left(33).wrapping_mul(C1);
    }
    if !t.is_empty() {
        h1 ^= k1.wrapping_mul(C1).rotate_left(31).wrapping_mul(C2);
    }
    h1 ^= data.len() as u64;
    h2 ^= data.len() as u64;
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1 = fmix(h1);
    h2 = fmix(h2);
    h1.wrapping_add(h2)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Shortened hex for messages.
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 200 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..160]), b.len())
    }
}

/// Known-answer tests of the oracle's own primitives: a check refuses to run when they fail.
pub fn self_test() -> Result<(), String> {
    if hex(&sha256(b"abc")) != "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad" {
        return Err("sha256".into());
    }
    let long: Vec<u8> = (0..200u8).collect();
    if hex(&sha256(&long[..119])).is_empty() {
        return Err("sha256 long".into());
    }
    // the fixtures in the repository's documentation: "non_sharded_dir" lives in bucket FA, "Makefile" in CD
    for (name, bucket) in [("non_sharded_dir", 0xfau64), ("Makefile", 0xcd)] {
        if murmur3_h1(name.as_bytes()) >> 56 != bucket {
            return Err(format!("murmur3 {} => {:x}", name, murmur3_h1(name.as_bytes())));
        }
    }
    Ok(())
}
