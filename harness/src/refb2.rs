//! Mirror of spec/Blake2.tla: the BLAKE2 standard written directly from RFC 7693 and the BLAKE2
//! paper, with no code shared with the crates under test.  Cross-checked against the TLA+
//! specification by TLC on every run (traces whose digests this module predicted).

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum V {
    B,
    S,
    Bp,
    Sp,
}

impl V {
    pub const ALL: [V; 4] = [V::B, V::S, V::Bp, V::Sp];
    pub fn name(self) -> &'static str {
        match self {
            V::B => "b",
            V::S => "s",
            V::Bp => "bp",
            V::Sp => "sp",
        }
    }
    pub fn parse(s: &str) -> V {
        match s {
            "b" => V::B,
            "s" => V::S,
            "bp" => V::Bp,
            "sp" => V::Sp,
            _ => panic!("bad variant {}", s),
        }
    }
    pub fn is_b(self) -> bool {
        matches!(self, V::B | V::Bp)
    }
    pub fn is_tree(self) -> bool {
        matches!(self, V::Bp | V::Sp)
    }
    pub fn fan(self) -> usize {
        match self {
            V::Bp => 4,
            V::Sp => 8,
            _ => 1,
        }
    }
    pub fn outb(self) -> usize {
        if self.is_b() {
            64
        } else {
            32
        }
    }
    pub fn blk(self) -> usize {
        2 * self.outb()
    }
    pub fn saltb(self) -> usize {
        self.outb() / 4
    }
    /// bits of the byte counter
    pub fn cnt_limbs(self) -> usize {
        if self.is_b() {
            8
        } else {
            4
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Prm {
    pub hl: u8,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
    pub pers: Vec<u8>,
    pub fo: u8,
    pub md: u8,
    pub mll: u32,
    pub no: u64,
    pub nd: u8,
    pub ihl: u8,
    pub ln: bool,
}

impl Prm {
    pub fn new(v: V) -> Prm {
        Prm {
            hl: v.outb() as u8,
            key: vec![],
            salt: vec![],
            pers: vec![],
            fo: 1,
            md: 1,
            mll: 0,
            no: 0,
            nd: 0,
            ihl: 0,
            ln: false,
        }
    }
}

const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

macro_rules! node {
    ($name:ident, $w:ty, $dw:ty, $bytes:expr, $rounds:expr, $r:expr, $iv:expr) => {
        #[derive(Clone)]
        pub struct $name {
            h: [$w; 8],
            buf: Vec<u8>,
            t: $dw,
            ln: bool,
        }
        impl $name {
            const IV: [$w; 8] = $iv;
            const BLK: usize = 16 * $bytes;
            fn new(pb: &[u8], ln: bool, t0: $dw) -> Self {
                let mut h = Self::IV;
                for i in 0..8 {
                    let mut x = [0u8; $bytes];
                    x.copy_from_slice(&pb[i * $bytes..(i + 1) * $bytes]);
                    h[i] ^= <$w>::from_le_bytes(x);
                }
                Self { h, buf: Vec::with_capacity(Self::BLK), t: t0, ln }
            }
            fn compress(h: &mut [$w; 8], blk: &[u8], t: $dw, f0: bool, f1: bool) {
                let mut m = [0 as $w; 16];
                for i in 0..16 {
                    let mut x = [0u8; $bytes];
                    x.copy_from_slice(&blk[i * $bytes..(i + 1) * $bytes]);
                    m[i] = <$w>::from_le_bytes(x);
                }
                let mut v = [0 as $w; 16];
                v[..8].copy_from_slice(h);
                v[8..].copy_from_slice(&Self::IV);
                v[12] ^= t as $w;
                v[13] ^= (t >> (8 * $bytes)) as $w;
                if f0 {
                    v[14] = !v[14];
                }
                if f1 {
                    v[15] = !v[15];
                }
                const R: [u32; 4] = $r;
                #[inline(always)]
                fn g(v: &mut [$w; 16], a: usize, b: usize, c: usize, d: usize, x: $w, y: $w) {
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                    v[d] = (v[d] ^ v[a]).rotate_right(R[0]);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(R[1]);
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                    v[d] = (v[d] ^ v[a]).rotate_right(R[2]);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(R[3]);
                }
                for r in 0..$rounds {
                    let s = &SIGMA[r % 10];
                    g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
                    g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
                    g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
                    g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
                    g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
                    g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
                    g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
                    g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
                }
                for i in 0..8 {
                    h[i] ^= v[i] ^ v[i + 8];
                }
            }
            fn update(&mut self, mut data: &[u8]) {
                while !data.is_empty() {
                    if self.buf.len() == Self::BLK {
                        self.t = self.t.wrapping_add(Self::BLK as $dw);
                        Self::compress(&mut self.h, &self.buf, self.t, false, false);
                        self.buf.clear();
                    }
                    if self.buf.is_empty() {
                        // whole blocks that are certainly not the last one
                        while data.len() > Self::BLK {
                            self.t = self.t.wrapping_add(Self::BLK as $dw);
                            Self::compress(&mut self.h, &data[..Self::BLK], self.t, false, false);
                            data = &data[Self::BLK..];
                        }
                    }
                    let take = data.len().min(Self::BLK - self.buf.len());
                    self.buf.extend_from_slice(&data[..take]);
                    data = &data[take..];
                }
            }
            fn finish(&self) -> Vec<u8> {
                let mut h = self.h;
                let mut blk = self.buf.clone();
                let t = self.t.wrapping_add(blk.len() as $dw);
                blk.resize(Self::BLK, 0);
                Self::compress(&mut h, &blk, t, true, self.ln);
                let mut out = Vec::with_capacity(8 * $bytes);
                for w in h.iter() {
                    out.extend_from_slice(&w.to_le_bytes());
                }
                out
            }
        }
    };
}

node!(
    NodeB,
    u64,
    u128,
    8,
    12,
    [32, 24, 16, 63],
    [
        0x6a09e667f3bcc908,
        0xbb67ae8584caa73b,
        0x3c6ef372fe94f82b,
        0xa54ff53a5f1d36f1,
        0x510e527fade682d1,
        0x9b05688c2b3e6c1f,
        0x1f83d9abfb41bd6b,
        0x5be0cd19137e2179
    ]
);
node!(
    NodeS,
    u32,
    u64,
    4,
    10,
    [16, 12, 8, 7],
    [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
        0x5be0cd19
    ]
);

fn param_block(v: V, p: &Prm) -> Vec<u8> {
    let mut b = vec![p.hl, p.key.len() as u8, p.fo, p.md];
    b.extend_from_slice(&p.mll.to_le_bytes());
    if v.is_b() {
        b.extend_from_slice(&p.no.to_le_bytes());
        b.push(p.nd);
        b.push(p.ihl);
        b.extend_from_slice(&[0; 14]);
    } else {
        b.extend_from_slice(&p.no.to_le_bytes()[..6]);
        b.push(p.nd);
        b.push(p.ihl);
    }
    for f in [&p.salt, &p.pers] {
        b.extend_from_slice(f);
        b.extend(std::iter::repeat(0).take(v.saltb() - f.len()));
    }
    assert_eq!(b.len(), v.outb());
    b
}

#[derive(Clone)]
pub enum Node {
    B(NodeB),
    S(NodeS),
}
impl Node {
    pub fn new(v: V, p: &Prm, with_key: bool, t0: u128) -> Node {
        let pb = param_block(v, p);
        let mut n = if v.is_b() {
            Node::B(NodeB::new(&pb, p.ln, t0))
        } else {
            Node::S(NodeS::new(&pb, p.ln, t0 as u64))
        };
        if with_key && !p.key.is_empty() {
            let mut k = p.key.clone();
            k.resize(v.blk(), 0);
            n.update(&k);
        }
        n
    }
    pub fn update(&mut self, d: &[u8]) {
        match self {
            Node::B(n) => n.update(d),
            Node::S(n) => n.update(d),
        }
    }
    pub fn finish(&self) -> Vec<u8> {
        match self {
            Node::B(n) => n.finish(),
            Node::S(n) => n.finish(),
        }
    }
}

/// A streaming standard hasher of any variant.
#[derive(Clone)]
pub struct Ref {
    v: V,
    prm: Prm,
    nodes: Vec<Node>,
    pos: u128, // message bytes so far
}
fn tree_prm(v: V, p: &Prm, off: u64, depth: u8, last: bool) -> Prm {
    let mut q = Prm::new(v);
    q.hl = p.hl;
    q.key = p.key.clone();
    q.fo = v.fan() as u8;
    q.md = 2;
    q.no = off;
    q.nd = depth;
    q.ihl = v.outb() as u8;
    q.ln = last;
    q
}
impl Ref {
    /// chaining words (as limb arrays), counter limbs and pending bytes of every node
    pub fn node_states(&self) -> Vec<(Vec<String>, String, Vec<u8>)> {
        use crate::json::limbs;
        self.nodes
            .iter()
            .map(|n| match n {
                Node::B(n) => (n.h.iter().map(|w| limbs(*w as u128, 4)).collect(), limbs(n.t, 8), n.buf.clone()),
                Node::S(n) => (n.h.iter().map(|w| limbs(*w as u128, 2)).collect(), limbs(n.t as u128, 4), n.buf.clone()),
            })
            .collect()
    }
    pub fn new(v: V, p: &Prm, t0: u128) -> Ref {
        let nodes = if v.is_tree() {
            (0..v.fan())
                .map(|i| Node::new(v, &tree_prm(v, p, i as u64, 0, i == v.fan() - 1), true, t0))
                .collect()
        } else {
            vec![Node::new(v, p, true, t0)]
        };
        Ref { v, prm: p.clone(), nodes, pos: 0 }
    }
    pub fn set_last(&mut self, ln: bool) {
        if !self.v.is_tree() {
            self.prm.ln = ln;
            match &mut self.nodes[0] {
                Node::B(n) => n.ln = ln,
                Node::S(n) => n.ln = ln,
            }
        }
    }
    pub fn update(&mut self, mut d: &[u8]) {
        if !self.v.is_tree() {
            self.nodes[0].update(d);
            self.pos += d.len() as u128;
            return;
        }
        let b = self.v.blk() as u128;
        while !d.is_empty() {
            let leaf = ((self.pos / b) % self.v.fan() as u128) as usize;
            let room = (b - self.pos % b) as usize;
            let take = room.min(d.len());
            self.nodes[leaf].update(&d[..take]);
            self.pos += take as u128;
            d = &d[take..];
        }
    }
    /// The same as update, for whole rows of a tree: every leaf absorbs its share on a thread of its own.
    pub fn update_rows(&mut self, d: &[u8]) {
        let (b, row) = (self.v.blk(), self.v.blk() * self.v.fan());
        assert!(self.v.is_tree() && self.pos % row as u128 == 0 && d.len() % row == 0);
        std::thread::scope(|sc| {
            for (i, n) in self.nodes.iter_mut().enumerate() {
                sc.spawn(move || {
                    for r in d.chunks_exact(row) {
                        n.update(&r[i * b..(i + 1) * b])
                    }
                });
            }
        });
        self.pos += d.len() as u128;
    }
    pub fn finish(&self) -> Vec<u8> {
        let mut out = if self.v.is_tree() {
            let mut root = Node::new(self.v, &tree_prm(self.v, &self.prm, 0, 1, true), false, 0);
            for n in &self.nodes {
                root.update(&n.finish());
            }
            root.finish()
        } else {
            self.nodes[0].finish()
        };
        out.truncate(self.prm.hl as usize);
        out
    }
}

pub fn digest(v: V, p: &Prm, msg: &[u8], t0: u128) -> Vec<u8> {
    let mut r = Ref::new(v, p, t0);
    r.update(msg);
    r.finish()
}

/// Stream KIN * (p + 1) + s is stream s with its byte p changed.
pub const KIN: u32 = 100_000;

/// Byte i of stream `seed`; same formula as StreamByte in Blake2.tla.
pub fn stream_byte(seed: u32, i: u64) -> u8 {
    match seed {
        0 => 0,
        1 => 255,
        KIN.. => stream_byte(seed % KIN, i).wrapping_add((i == (seed / KIN) as u64 - 1) as u8),
        _ => {
            let s = seed as u64;
            ((i % 251) * (2 * s + 1) + (i / 251) * 7 + (i / 64) * 13 + s * 31) as u8
        }
    }
}
pub fn fill_stream(seed: u32, off: u64, out: &mut [u8]) {
    match seed {
        0 => out.fill(0),
        1 => out.fill(255),
        KIN.. => {
            fill_stream(seed % KIN, off, out);
            let p = (seed / KIN) as u64 - 1;
            if p >= off && p - off < out.len() as u64 {
                let b = &mut out[(p - off) as usize];
                *b = b.wrapping_add(1);
            }
        }
        _ => {
            let s = seed as u64;
            let (mut r, mut q) = (off % 251, off / 251);
            let mut i = off;
            let m = (2 * s + 1) as u8;
            let mut acc = (r as u8).wrapping_mul(m);
            for o in out.iter_mut() {
                let tail = (q as u8).wrapping_mul(7).wrapping_add(((i / 64) as u8).wrapping_mul(13)).wrapping_add((s as u8).wrapping_mul(31));
                *o = acc.wrapping_add(tail);
                i += 1;
                r += 1;
                acc = acc.wrapping_add(m);
                if r == 251 {
                    r = 0;
                    acc = 0;
                    q += 1;
                }
            }
        }
    }
}
pub fn seg_bytes(seed: u32, off: u64, len: u64) -> Vec<u8> {
    let mut v = vec![0; len as usize];
    fill_stream(seed, off, &mut v);
    v
}
