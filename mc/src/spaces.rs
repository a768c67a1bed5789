//! Key and value pools that span the explored spaces.

use crate::model::*;

/// All strings over `alphabet` with `min..=max` nibbles.
pub fn strings(alphabet: &[u8], min: usize, max: usize) -> Vec<Key> {
    let mut out = vec![];
    let mut level: Vec<Key> = vec![vec![]];
    for n in 0..=max {
        if n >= min {
            out.extend(level.iter().cloned());
        }
        level = level.iter().flat_map(|k| alphabet.iter().map(move |a| cat(k, &[*a]))).collect();
    }
    out
}

pub fn cat(a: &[u8], b: &[u8]) -> Key {
    let mut k = a.to_vec();
    k.extend_from_slice(b);
    k
}

/// A pattern of 64 nibbles without period, containing zeros and fs.
pub fn pattern() -> Key {
    (0..64u32).map(|i| ((i * i * 7 + i * 5 + 3) / 3 % 16) as u8).collect()
}

/// `k` with the nibble at `i` changed to another one.
pub fn flip(k: &[u8], i: usize, by: u8) -> Key {
    let mut k = k.to_vec();
    k[i] = (k[i] + by) % 16;
    k
}

/// A value of `len` bytes starting with `first`.
pub fn val(len: usize, first: u8) -> Vec<u8> {
    (0..len).map(|i| if i == 0 { first } else { (i as u8).wrapping_mul(37) ^ first }).collect()
}

pub fn v(len: usize, first: u8) -> Ent {
    Ent::Val(val(len, first))
}

/// The keys themselves plus near misses: prefixes, extensions, changed nibbles.
pub fn probes(keys: &[Key]) -> Vec<Key> {
    let mut out: Vec<Key> = keys.to_vec();
    for k in keys {
        let n = k.len();
        for cut in [1, 2, n / 2, n] {
            if cut <= n {
                out.push(k[..n - cut].to_vec());
                out.push(k[cut..].to_vec());
            }
        }
        for e in [0u8, 15] {
            if n < 64 {
                out.push(cat(k, &[e]));
                out.push(cat(&[e], k));
            }
            if n < 63 {
                out.push(cat(k, &[e, e]));
            }
        }
        if n > 0 {
            out.push(flip(k, 0, 1));
            out.push(flip(k, n - 1, 1));
            out.push(flip(k, n / 2, 8));
        }
    }
    out.sort();
    out.dedup();
    out
}

/// A pool of keys of many lengths and relationships.
pub fn diverse() -> Vec<Key> {
    let p = pattern();
    let mut out: Vec<Key> = vec![];
    for n in [0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 62, 63, 64] {
        out.push(p[..n].to_vec());
    }
    for d in [0, 1, 2, 3, 15, 16, 31, 32, 33, 48, 62, 63] {
        out.push(flip(&p, d, 1));
    }
    for n in [1, 2, 3, 32, 63, 64] {
        out.push(vec![0; n]);
        out.push(vec![15; n]);
    }
    out.push(cat(&p[..2], &[0, 0]));
    out.push(cat(&p[..2], &[15, 15, 15]));
    out.push(cat(&p[..33], &[0]));
    out.push(cat(&p[..33], &[0, 1]));
    out.push(flip(&p[..40], 20, 5));
    out.push(flip(&p[..41], 20, 5));
    out.sort();
    out.dedup();
    out
}

pub struct Space {
    pub name: String,
    pub keys: Vec<Key>,
    pub vals: Vec<Ent>,
    /// Only states with at most this many entries are visited.
    pub max_live: usize,
}

pub fn space(name: &str, keys: Vec<Key>, vals: Vec<Ent>) -> Space {
    let max_live = keys.len();
    Space { name: name.into(), keys, vals, max_live }
}

/// The spaces of contents that histories of map operations are explored over.
pub fn map_spaces(thorough: bool) -> Vec<Space> {
    let p = pattern();
    let at = |ns: &[usize]| -> Vec<Key> { ns.iter().map(|n| p[..*n].to_vec()).collect() };
    let mut out = vec![
        space("bin2", strings(&[0, 1], 0, 2), vec![v(1, 1), v(40, 2)]),
        space("lohi2", strings(&[0, 15], 0, 2), vec![v(2, 0x80), v(33, 0)]),
        space("tern2", strings(&[0, 7, 15], 0, 2), vec![v(32, 9)]),
        space("bin3", strings(&[0, 1], 0, 3), vec![v(3, 7)]),
        space("zeros", (0..=9).map(|n| vec![0; n]).collect(), vec![v(5, 1)]),
        space("fs", (0..=8).map(|n| vec![15; n]).collect(), vec![v(31, 0xff)]),
        space("chain", at(&[0, 1, 2, 3, 15, 16, 17, 32, 33, 63, 64]), vec![v(20, 3)]),
        space(
            "deep",
            [0, 1, 2, 30, 31, 32, 33, 62, 63].iter().map(|d| flip(&p, *d, 1)).chain([p.clone()]).collect(),
            vec![v(32, 5)],
        ),
        space(
            "deepmix",
            at(&[0, 31, 32, 63, 64])
                .into_iter()
                .chain([flip(&p, 31, 2), flip(&p[..33], 32, 2), flip(&p, 63, 2), flip(&p[..63], 62, 2)])
                .collect(),
            vec![v(30, 5)],
        ),
        space(
            "odd",
            ["", "1", "12", "123", "124", "1234", "12345", "1235", "2", "20"]
                .iter()
                .map(|s| s.bytes().map(|b| b - b'0').collect())
                .collect(),
            vec![v(1, 0x7f)],
        ),
        space(
            "values",
            vec![vec![1, 2], vec![1, 2, 3], vec![1, 3, 4], vec![2]],
            vec![v(1, 0), v(1, 0x7f), v(1, 0x80), v(2, 0), v(31, 1), v(32, 1), v(55, 1), v(56, 1), v(300, 1)],
        ),
        Space { name: "diverse".into(), keys: diverse(), vals: vec![v(12, 4)], max_live: if thorough { 4 } else { 2 } },
        Space {
            name: "ternary".into(),
            keys: strings(&[0, 8, 15], 0, 3),
            vals: vec![v(30, 4)],
            max_live: if thorough { 6 } else { 3 },
        },
        Space {
            name: "nibbles".into(),
            keys: strings(&(0..16).collect::<Vec<u8>>(), 1, 1)
                .into_iter()
                .chain([vec![]])
                .chain((0..16).map(|n| vec![n, n]))
                .collect(),
            vals: vec![v(6, 4)],
            max_live: if thorough { 5 } else { 3 },
        },
    ];
    if thorough {
        out.push(space(
            "wide",
            (0..16).map(|n| vec![3, n]).chain([vec![3]]).collect(),
            vec![v(33, 4)],
        ));
        out.push(space("lohi2x3", strings(&[0, 15], 0, 2), vec![v(1, 1), v(31, 2), v(33, 3)]));
        out.push(space("quad2", strings(&[0, 1, 15], 1, 2).into_iter().chain([vec![], vec![0, 0, 0], vec![0, 0, 1], vec![15, 15, 0]]).collect(), vec![v(32, 9)]));
        out.push(space("chain2", at(&[0, 1, 2, 3, 4, 15, 16, 17, 31, 32, 33, 48, 62, 63, 64]), vec![v(20, 3)]));
        out.push(space(
            "deep2",
            [0, 1, 2, 3, 15, 16, 17, 30, 31, 32, 33, 47, 48, 62, 63].iter().map(|d| flip(&p, *d, 1)).chain([p.clone()]).collect(),
            vec![v(32, 5)],
        ));
    }
    out
}

/// The hash of some branch with at least 32 bytes of RLP.
pub fn branch_hash(seed: u8) -> H {
    let mut m = Map::new();
    for n in 0..3u8 {
        m.insert(vec![n * 3 + seed % 4, seed % 16], v(33, seed));
    }
    let b = build(&m);
    assert!(matches!(b, M::Branch(..)));
    b.root()
}

/// Spaces with values and hash nodes.
pub fn hash_spaces(thorough: bool) -> Vec<Space> {
    let p = pattern();
    let at = |ns: &[usize]| -> Vec<Key> { ns.iter().map(|n| p[..*n].to_vec()).collect() };
    let h = |s| Ent::Hash(branch_hash(s));
    let mut out = vec![
        space("h-bin2", strings(&[0, 1], 0, 2), vec![v(1, 1), v(40, 2), h(1)]),
        Space {
            name: "h-lohi3".into(),
            keys: strings(&[0, 15], 0, 3),
            vals: vec![v(3, 1), h(2)],
            max_live: if thorough { 5 } else { 3 },
        },
        space(
            "h-deep",
            at(&[0, 1, 2, 31, 32, 63]).into_iter().chain([flip(&p[..32], 31, 1), flip(&p[..3], 2, 1)]).collect(),
            vec![v(33, 1), h(3)],
        ),
        Space {
            name: "h-fan".into(),
            keys: (0..16).map(|n| vec![n]).chain([vec![], vec![0, 0], vec![15, 15]]).collect(),
            vals: vec![v(33, 1), h(3)],
            max_live: if thorough { 4 } else { 3 },
        },
        space(
            "h-odd",
            ["", "1", "12", "123", "124", "1234", "2", "20"]
                .iter()
                .map(|s| s.bytes().map(|b| b - b'0').collect())
                .collect(),
            vec![v(2, 1), h(1)],
        ),
    ];
    if thorough {
        out.push(space("h-two", strings(&[0, 1], 0, 2), vec![v(1, 1), v(33, 1), h(1), h(2)]));
    }
    out
}

/// Pools of contents for partial tries.
pub struct Pool {
    pub name: &'static str,
    pub keys: Vec<Key>,
    contents: Vec<Map>,
}

impl Pool {
    /// All assignments of values to keys.
    pub fn new(name: &'static str, keys: Vec<Key>, vals: Vec<Ent>) -> Pool {
        let b = vals.len() as u64 + 1;
        let get = |mut i: u64| {
            let mut m = Map::new();
            for k in &keys {
                if i % b > 0 {
                    m.insert(k.clone(), vals[(i % b) as usize - 1].clone());
                }
                i /= b;
            }
            m
        };
        let contents = (0..b.pow(keys.len() as u32)).map(get).collect();
        Pool { name, keys, contents }
    }

    /// All subsets of the keys with few of them present, or few absent.
    pub fn wide(name: &'static str, keys: Vec<Key>, val: Ent, few: usize) -> Pool {
        let mut contents: Vec<Map> = vec![];
        let mut sets: Vec<Vec<usize>> = vec![vec![]];
        for n in 0..=few {
            for s in &sets {
                contents.push(s.iter().map(|i| (keys[*i].clone(), val.clone())).collect());
                if n < few {
                    contents.push((0..keys.len()).filter(|i| !s.contains(i)).map(|i| (keys[i].clone(), val.clone())).collect());
                }
            }
            sets = sets
                .iter()
                .flat_map(|s| (s.last().map_or(0, |x| x + 1)..keys.len()).map(move |i| [s.clone(), vec![i]].concat()))
                .collect();
        }
        Pool { name, keys, contents }
    }

    pub fn len(&self) -> u64 {
        self.contents.len() as u64
    }
    pub fn get(&self, i: u64) -> Map {
        self.contents[i as usize].clone()
    }
}

fn digits(ss: &[&str]) -> Vec<Key> {
    ss.iter().map(|s| s.chars().map(|c| c.to_digit(16).unwrap() as u8).collect()).collect()
}

impl Pool {
    /// The tries of all contents with at most `k` keys (optionally with all
    /// their cuts), for the largest `k` that keeps the list below `cap`.
    pub fn tries(&self, cut: bool, cap: usize) -> Vec<M> {
        let mut by_size = vec![vec![]; self.keys.len() + 1];
        for i in 0..self.len() {
            let m = self.get(i);
            let n = m.len();
            let t = build(&m);
            if cut {
                by_size[n].extend(cuts(&t));
            } else {
                by_size[n].push(t);
            }
        }
        let mut out: Vec<M> = vec![];
        for (i, l) in by_size.into_iter().enumerate() {
            if i > 1 && out.len() + l.len() > cap {
                break;
            }
            out.extend(l);
        }
        out
    }
}

/// `size` 0: smallest (for deep enumerations per content), 2: largest.
pub fn pools(size: u32) -> Vec<Pool> {
    let p = pattern();
    let mut out = vec![
        Pool::new("tiny", digits(&["", "0", "00", "01", "1"]), vec![v(40, 1)]),
        Pool::new("mixed", digits(&["", "12", "123", "1f", "2"]), vec![v(1, 1), v(40, 2)]),
        Pool::new("ext", digits(&["1234", "1235", "12", "1f00", "1f0f"]), vec![v(40, 1)]),
        Pool::new(
            "deep",
            vec![p.clone(), flip(&p, 63, 1), flip(&p, 32, 1), flip(&p, 0, 1), p[..63].to_vec(), p[..32].to_vec()],
            vec![v(32, 3)],
        ),
    ];
    if size >= 1 {
        out.push(Pool::new("bin2", strings(&[0, 1], 0, 2), vec![v(40, 2)]));
        out.push(Pool::new("tern", strings(&[0, 7, 15], 2, 2).into_iter().take(8).collect(), vec![v(33, 3)]));
        // A branch at every depth.
        out.push(Pool::new("comb", digits(&["0", "1f", "10f", "1000", "10010", "10011"]), vec![v(40, 2)]));
        out.push(Pool::wide("fan", (0..16).map(|n| vec![n]).chain([vec![]]).collect(), v(33, 2), if size >= 2 { 3 } else { 2 }));
        out.push(Pool::new("zeros", (0..=6).map(|n| vec![0; n]).collect(), vec![v(33, 3)]));
        out.push(Pool::new("border", digits(&["0", "10", "1f", "1fe", "f"]), vec![v(2, 1), v(28, 4), v(30, 4), v(31, 4)]));
    }
    if size >= 2 {
        out.push(Pool::new("bin2x2", strings(&[0, 15], 0, 2), vec![v(1, 2), v(40, 2)]));
        out.push(Pool::new("odd", digits(&["", "1", "12", "123", "124", "1234", "12345", "1235", "2", "20"]), vec![v(40, 1)]));
        out.push(Pool::new("tern9", strings(&[0, 7, 15], 2, 2), vec![v(40, 3)]));
        out.push(Pool::new(
            "deep2",
            [0, 1, 31, 32, 33, 62, 63].iter().map(|d| flip(&p, *d, 1)).chain([p.clone()]).collect(),
            vec![v(32, 3)],
        ));
        out.push(Pool::wide("fan2", (0..16).flat_map(|n| [vec![3, n, 4], vec![3, n, 5]]).collect(), v(33, 2), 2));
    }
    out
}

/// Every way to replace sub-tries whose RLP is >= 32 bytes by hash nodes,
/// including none at all (which comes first). Of a branch with many children
/// few are cut or few are left.
pub fn cuts(m: &M) -> Vec<M> {
    let out: Vec<M> = match m {
        M::Branch(cs, v) => {
            let opts: Vec<Vec<M>> = cs.iter().map(cuts).collect();
            let mut acc: Vec<Vec<M>> = vec![vec![]];
            if opts.iter().filter(|o| o.len() > 1).count() > 6 {
                let last: Vec<M> = opts.iter().map(|o| o.last().unwrap().clone()).collect();
                acc = vec![cs.clone(), last.clone()];
                for i in 0..16 {
                    for (x, o) in opts[i].iter().enumerate() {
                        for base in [cs, &last] {
                            let mut b = base.clone();
                            b[i] = o.clone();
                            acc.push(b);
                        }
                        for j in i + 1..16 {
                            if x > 0 && opts[j].len() > 1 {
                                let mut b = cs.clone();
                                b[i] = o.clone();
                                b[j] = opts[j].last().unwrap().clone();
                                acc.push(b);
                            }
                        }
                    }
                }
                let mut seen = std::collections::HashSet::new();
                acc.retain(|b| seen.insert(b.clone()));
                return with_hash(m, acc.into_iter().map(|a| M::Branch(a, v.clone())).collect());
            }
            for o in opts {
                acc = acc
                    .into_iter()
                    .flat_map(|a| {
                        o.iter().map(move |x| {
                            let mut b = a.clone();
                            b.push(x.clone());
                            b
                        })
                    })
                    .collect::<Vec<_>>();
            }
            acc.into_iter().map(|a| M::Branch(a, v.clone())).collect()
        }
        M::Ext(k, c) => cuts(c).into_iter().map(|x| M::Ext(k.clone(), Box::new(x))).collect(),
        x => vec![x.clone()],
    };
    with_hash(m, out)
}

fn with_hash(m: &M, mut out: Vec<M>) -> Vec<M> {
    if !matches!(m, M::Hash(_)) {
        if let Some(h) = m.hashed() {
            out.push(M::Hash(h));
        }
    }
    out
}
