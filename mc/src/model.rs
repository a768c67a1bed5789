//! Reference model, written from the yellow paper and independent of the code
//! under test: Keccak-256, RLP, hex-prefix, and the Merkle-Patricia trie as a
//! pure function of its entries.

use std::collections::BTreeMap;

/// A key: one nibble (0..=15) per element, most significant first.
pub type Key = Vec<u8>;
pub type H = [u8; 32];

/// What a (partial) trie stores at a key.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ent {
    Val(Vec<u8>),
    Hash(H),
}

/// The contents of a (partial) trie.
pub type Map = BTreeMap<Key, Ent>;

/// A node of the reference trie.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum M {
    Empty,
    Hash(H),
    Branch(Vec<M>, Vec<u8>),
    Ext(Key, Box<M>),
    Leaf(Key, Vec<u8>),
}

// ---------------------------------------------------------------- keccak-256

const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000,
    0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
    0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];

fn keccak_f(a: &mut [[u64; 5]; 5]) {
    for rc in RC {
        // theta
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        // rho and pi
        let mut b = [[0u64; 5]; 5];
        let (mut x, mut y) = (1usize, 0usize);
        b[0][0] = a[0][0];
        for t in 0..24u32 {
            let r = ((t + 1) * (t + 2) / 2) % 64;
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            b[nx][ny] = a[x][y].rotate_left(r);
            x = nx;
            y = ny;
        }
        // chi
        for x in 0..5 {
            for y in 0..5 {
                a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
            }
        }
        // iota
        a[0][0] ^= rc;
    }
}

pub fn keccak256(data: &[u8]) -> H {
    const RATE: usize = 136;
    let mut st = [[0u64; 5]; 5];
    let mut absorb = |block: &[u8]| {
        for (i, w) in block.chunks_exact(8).enumerate() {
            st[i % 5][i / 5] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        keccak_f(&mut st);
    };
    let mut chunks = data.chunks_exact(RATE);
    for c in &mut chunks {
        absorb(c);
    }
    let rem = chunks.remainder();
    let mut last = [0u8; RATE];
    last[..rem.len()].copy_from_slice(rem);
    last[rem.len()] ^= 0x01;
    last[RATE - 1] ^= 0x80;
    absorb(&last);
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&st[i % 5][i / 5].to_le_bytes());
    }
    out
}

// ----------------------------------------------------------------------- RLP

fn be_len(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    while n > 0 {
        v.insert(0, (n & 0xff) as u8);
        n >>= 8;
    }
    v
}

fn rlp_head(out: &mut Vec<u8>, len: usize, short: u8, long: u8) {
    if len <= 55 {
        out.push(short + len as u8);
    } else {
        let l = be_len(len);
        out.push(long + l.len() as u8);
        out.extend(l);
    }
}

pub fn rlp_str(s: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len() + 4);
    if s.len() == 1 && s[0] < 0x80 {
        out.push(s[0]);
    } else {
        rlp_head(&mut out, s.len(), 0x80, 0xb7);
        out.extend_from_slice(s);
    }
    out
}

pub fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let len = items.iter().map(|i| i.len()).sum();
    let mut out = Vec::with_capacity(len + 4);
    rlp_head(&mut out, len, 0xc0, 0xf7);
    for i in items {
        out.extend_from_slice(i);
    }
    out
}

/// Hex-prefix encoding, yellow paper appendix C.
pub fn hex_prefix(key: &[u8], leaf: bool) -> Vec<u8> {
    let f = if leaf { 2u8 } else { 0 };
    let mut out = vec![];
    let rest = if key.len() % 2 == 1 {
        out.push(((f + 1) << 4) | key[0]);
        &key[1..]
    } else {
        out.push(f << 4);
        key
    };
    for p in rest.chunks(2) {
        out.push((p[0] << 4) | p[1]);
    }
    out
}

// ---------------------------------------------------------------------- trie

impl M {
    /// RLP of the node itself (structural composition function c).
    /// `None` for hash nodes, whose preimage is unknown.
    pub fn rlp(&self) -> Option<Vec<u8>> {
        Some(match self {
            M::Empty => vec![0x80],
            M::Hash(_) => return None,
            M::Branch(cs, v) => {
                let mut items: Vec<Vec<u8>> = cs.iter().map(|c| c.reference()).collect();
                items.push(rlp_str(v));
                rlp_list(&items)
            }
            M::Ext(k, c) => rlp_list(&[rlp_str(&hex_prefix(k, false)), c.reference()]),
            M::Leaf(k, v) => rlp_list(&[rlp_str(&hex_prefix(k, true)), rlp_str(v)]),
        })
    }

    /// What a parent embeds for this child (function n): the node itself if its
    /// RLP is shorter than 32 bytes, and its hash otherwise.
    pub fn reference(&self) -> Vec<u8> {
        match self.rlp() {
            None => match self {
                M::Hash(h) => rlp_str(h),
                _ => unreachable!(),
            },
            Some(r) if r.len() < 32 => r,
            Some(r) => rlp_str(&keccak256(&r)),
        }
    }

    /// The Merkle hash if the node is referenced by hash.
    pub fn hashed(&self) -> Option<H> {
        match self {
            M::Hash(h) => Some(*h),
            _ => {
                let r = self.rlp().unwrap();
                (r.len() >= 32).then(|| keccak256(&r))
            }
        }
    }

    /// Root hash of the trie with this root node.
    pub fn root(&self) -> H {
        match self {
            M::Hash(h) => *h,
            _ => keccak256(&self.rlp().unwrap()),
        }
    }

    /// Contents of the trie below this node.
    pub fn entries(&self) -> Vec<(Key, Ent)> {
        fn rec(m: &M, p: &mut Key, out: &mut Vec<(Key, Ent)>) {
            match m {
                M::Empty => {}
                M::Hash(h) => out.push((p.clone(), Ent::Hash(*h))),
                M::Branch(cs, v) => {
                    if !v.is_empty() {
                        out.push((p.clone(), Ent::Val(v.clone())));
                    }
                    for (i, c) in cs.iter().enumerate() {
                        p.push(i as u8);
                        rec(c, p, out);
                        p.pop();
                    }
                }
                M::Ext(k, c) => {
                    p.extend(k);
                    rec(c, p, out);
                    p.truncate(p.len() - k.len());
                }
                M::Leaf(k, v) => {
                    let mut q = p.clone();
                    q.extend(k);
                    out.push((q, Ent::Val(v.clone())));
                }
            }
        }
        let mut out = vec![];
        rec(self, &mut vec![], &mut out);
        out
    }
}

/// The trie with the given entries (yellow paper appendix D). A hash entry
/// stands for the whole sub-trie at its key, so no entry may extend its key.
/// A node with the same encoding and without the children that are hashed.
pub fn shallow(m: &M, kids: &[M]) -> M {
    match m {
        M::Branch(_, v) => M::Branch(kids.to_vec(), v.clone()),
        M::Ext(n, _) => M::Ext(n.clone(), Box::new(kids[0].clone())),
        x => x.clone(),
    }
}

/// What a parent needs to know about a node given in shallow form.
pub fn shrink(m: M) -> M {
    match m.hashed() {
        Some(h) => M::Hash(h),
        None => m,
    }
}

pub fn build(entries: &Map) -> M {
    let v: Vec<(&[u8], &Ent)> = entries.iter().map(|(k, e)| (k.as_slice(), e)).collect();
    build_rec(&v, 0)
}

fn build_rec(es: &[(&[u8], &Ent)], d: usize) -> M {
    if es.is_empty() {
        return M::Empty;
    }
    if es.len() == 1 {
        let rest = es[0].0[d..].to_vec();
        return match es[0].1 {
            Ent::Val(v) => M::Leaf(rest, v.clone()),
            Ent::Hash(h) if rest.is_empty() => M::Hash(*h),
            Ent::Hash(h) => M::Ext(rest, Box::new(M::Hash(*h))),
        };
    }
    // Entries are sorted, so the first and the last have the smallest common prefix.
    let (a, b) = (es[0].0, es[es.len() - 1].0);
    let common = a[d..].iter().zip(b[d..].iter()).take_while(|(x, y)| x == y).count();
    if common > 0 {
        return M::Ext(a[d..d + common].to_vec(), Box::new(build_rec(es, d + common)));
    }
    let mut value = vec![];
    let mut rest = es;
    if es[0].0.len() == d {
        match es[0].1 {
            Ent::Val(v) => value = v.clone(),
            Ent::Hash(_) => panic!("model: entry below a hash entry"),
        }
        rest = &es[1..];
    }
    let children = (0..16u8)
        .map(|n| {
            let lo = rest.partition_point(|e| e.0[d] < n);
            let hi = rest.partition_point(|e| e.0[d] <= n);
            build_rec(&rest[lo..hi], d + 1)
        })
        .collect();
    M::Branch(children, value)
}

/// Does the walk along `k` meet a hash node?
pub fn hits_hash(m: &Map, k: &[u8]) -> bool {
    (0..=k.len()).any(|n| matches!(m.get(&k[..n]), Some(Ent::Hash(_))))
}

/// Is there any entry at `k` or below?
pub fn occupied(m: &Map, k: &[u8]) -> bool {
    m.range(k.to_vec()..).next().map_or(false, |(x, _)| x.starts_with(k))
}

pub fn key_str(k: &[u8]) -> String {
    let mut s = String::from("0x");
    for n in k {
        s.push(char::from_digit(*n as u32, 16).unwrap());
    }
    s
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn ent_str(e: &Ent) -> String {
    match e {
        Ent::Val(v) if v.len() > 8 => format!("{}..({}B)", hex(&v[..4]), v.len()),
        Ent::Val(v) => hex(v),
        Ent::Hash(h) => format!("#{}", hex(&h[..4])),
    }
}

pub fn map_str(m: &Map) -> String {
    let v: Vec<String> = m
        .iter()
        .map(|(k, e)| format!("{}=>{}", key_str(k), ent_str(e)))
        .collect();
    format!("{{{}}}", v.join(", "))
}

/// Known-answer tests of the reference model itself, run before every check.
pub fn self_test() {
    let h = |s: &str| -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    assert_eq!(
        keccak256(b"").to_vec(),
        h("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470")
    );
    assert_eq!(
        keccak256(b"abc").to_vec(),
        h("4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45")
    );
    // The root of the empty trie.
    assert_eq!(
        build(&Map::new()).root().to_vec(),
        h("56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421")
    );
    // Examples of the Ethereum wiki / trietest.json ("dogs", "puppy", "singleItem").
    let mk = |es: &[(&str, &str)]| -> H {
        let mut m = Map::new();
        for (k, v) in es {
            let key = k.bytes().flat_map(|b| [b >> 4, b & 15]).collect();
            m.insert(key, Ent::Val(v.as_bytes().to_vec()));
        }
        build(&m).root()
    };
    assert_eq!(
        mk(&[("do", "verb"), ("horse", "stallion"), ("doge", "coin"), ("dog", "puppy")]).to_vec(),
        h("5991bb8c6514148a29db676a14ac506cd2cd5775ace63c30a4fe457715e9ac84")
    );
    assert_eq!(
        mk(&[("doe", "reindeer"), ("dog", "puppy"), ("dogglesworth", "cat")]).to_vec(),
        h("8aad789dff2f538bca5d8ea56e8abe10f4c7ba3a5dea95fea4cd6e7c3a1168d3")
    );
    assert_eq!(
        mk(&[("A", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")]).to_vec(),
        h("d23786fb4a010da3ce639d66d5e904a11dbc02746d1ce25029e53290cabf28ab")
    );
    assert_eq!(
        mk(&[("foo", "bar"), ("food", "bass")]).to_vec(),
        h("17beaa1648bafa633cda809c90c04af50fc8aed3cb40d16efbddee6fdf63c4c3")
    );
}
