//! Tries far larger than the exhaustively combined ones, in families that grow
//! step by step: deep ones, wide ones, and ones with long values. Every check
//! walks the whole family, so that a behaviour that changes at some size is met.

use std::collections::{BTreeSet, HashMap};

use eth_trie_utils::partial_trie::PartialTrie;

use crate::{
    debug, engine::*, mapcheck::*, misc, model::*,
    partial::{self, Upd},
    real::*,
    sharing,
    spaces::*,
};

/// A branch at every `gap`-th depth on the way down `p`, `n` of them; with
/// `vals`, each of them has a value.
fn ladder(p: &[u8], n: usize, gap: usize, len: usize, vals: bool) -> Map {
    let mut m = Map::new();
    for i in 0..n {
        let d = i * gap;
        m.insert(flip(&p[..d + 1], d, 8), v(len, i as u8 + 1));
        if vals {
            m.insert(p[..d].to_vec(), v(len, i as u8 + 101));
        }
    }
    m.insert(p[..(n * gap).min(64)].to_vec(), v(len, 99));
    m
}

/// `n` keys of 4 nibbles, spread out evenly, neighbours first.
fn bush(n: usize, len: usize) -> Map {
    (0..n).map(|i| (i * 40503 % 65536, i)).map(|(x, i)| (vec![(x >> 12) as u8, (x >> 8) as u8 & 15, (x >> 4) as u8 & 15, x as u8 & 15], v(len, i as u8 | 1))).collect()
}

/// `n` keys of 64 nibbles that look random, as in a state trie.
fn state(n: usize, len: usize) -> Map {
    let key = |i: usize| keccak256(&(i as u64).to_be_bytes()).iter().flat_map(|b| [b >> 4, b & 15]).collect();
    (0..n).map(|i| (key(i), v(len, i as u8 | 1))).collect()
}

/// `n` keys below one another in one branch after the other, all short.
fn rows(n: usize) -> Map {
    (0..n).map(|i| (vec![(i / 16 % 16) as u8, (i / 256) as u8, (i % 16) as u8], v(1 + i % 40, i as u8 | 1))).collect()
}

pub fn family(th: bool) -> Vec<(String, Map)> {
    let mut out: Vec<(String, Map)> = vec![];
    let p = pattern();
    let z = vec![0u8; 64];
    for gap in 1..=3usize {
        for n in 1..=64 / gap {
            if gap > 1 && !th && n % 4 != 0 && n > 8 && n != 64 / gap {
                continue;
            }
            for (len, vals) in [(33, false), (1, false), (20, true)] {
                if !th && gap > 1 && len == 1 {
                    continue;
                }
                out.push((format!("ladder-{n}-{gap}-{len}"), ladder(&p, n, gap, len, vals)));
                if th || n % 16 == 0 {
                    out.push((format!("zeros-{n}-{gap}-{len}"), ladder(&z, n, gap, len, vals)));
                }
            }
        }
    }
    let mut sizes: Vec<usize> = vec![3, 5, 9, 15, 16, 17, 24, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257];
    if th {
        sizes.extend((18..256).step_by(7));
        sizes.extend([300, 400, 511, 512, 513, 700, 1023, 1024, 1025]);
    }
    sizes.sort();
    sizes.dedup();
    for n in sizes {
        out.push((format!("bush-{n}"), bush(n, 33)));
        if th || n <= 65 || n > 250 {
            out.push((format!("state-{n}"), state(n, 40)));
            out.push((format!("rows-{n}"), rows(n)));
        }
    }
    for l in [61, 90, 128, 255, 257, 400, 512, 600, 1000, 1023, 1024, 1025, 2048, 4096, 5000, 65536] {
        // As a leaf, as the value of a branch, below an extension.
        let m: Map = [(vec![1, 2], 1), (vec![1, 2, 3], 2), (vec![1, 3], 3), (vec![4, 5, 6, 7], 4), (vec![4, 5, 6, 8], 5)].map(|(k, i)| (k, v(l, i))).into();
        out.push((format!("values-{l}"), m));
    }
    out
}

/// The trie with one sub-trie hashed out: all of them, or about `most` of them
/// if there are too many.
fn single_cuts(m: &M, most: usize) -> Vec<(Key, M)> {
    fn places(m: &M, p: &Key, out: &mut Vec<Key>) {
        if !matches!(m, M::Hash(_)) && m.hashed().is_some() {
            out.push(p.clone());
        }
        match m {
            M::Branch(cs, _) => cs.iter().enumerate().for_each(|(i, c)| places(c, &cat(p, &[i as u8]), out)),
            M::Ext(n, c) => places(c, &cat(p, n), out),
            _ => {}
        }
    }
    fn put(m: &M, at: &[u8]) -> M {
        match m {
            _ if at.is_empty() => M::Hash(m.hashed().unwrap()),
            M::Branch(cs, v) => {
                let mut cs = cs.clone();
                cs[at[0] as usize] = put(&cs[at[0] as usize], &at[1..]);
                M::Branch(cs, v.clone())
            }
            M::Ext(n, c) => M::Ext(n.clone(), Box::new(put(c, &at[n.len()..]))),
            _ => unreachable!(),
        }
    }
    let mut ps = vec![];
    places(m, &vec![], &mut ps);
    let step = ps.len() / most + 1;
    ps.into_iter().step_by(step).map(|p| (p.clone(), put(m, &p))).collect()
}

/// The trie with all sub-tries of one branch hashed out, or all but the first or
/// last: for about `most` of the branches.
fn wide_cuts(m: &M, most: usize) -> Vec<(Key, M)> {
    fn places(m: &M, p: &Key, out: &mut Vec<Key>) {
        match m {
            M::Branch(cs, _) => {
                out.push(p.clone());
                cs.iter().enumerate().for_each(|(i, c)| places(c, &cat(p, &[i as u8]), out));
            }
            M::Ext(n, c) => places(c, &cat(p, n), out),
            _ => {}
        }
    }
    fn put(m: &M, at: &[u8], keep: usize) -> M {
        match m {
            M::Branch(cs, v) if at.is_empty() => {
                let can: Vec<usize> = (0..16).filter(|i| cs[*i].hashed().is_some()).collect();
                let kept = match keep {
                    0 => None,
                    1 => can.first(),
                    _ => can.last(),
                };
                let one = |(i, c): (usize, &M)| match c.hashed() {
                    Some(h) if Some(&i) != kept => M::Hash(h),
                    _ => c.clone(),
                };
                M::Branch(cs.iter().enumerate().map(one).collect(), v.clone())
            }
            M::Branch(cs, v) => {
                let mut cs = cs.clone();
                cs[at[0] as usize] = put(&cs[at[0] as usize], &at[1..], keep);
                M::Branch(cs, v.clone())
            }
            M::Ext(n, c) => M::Ext(n.clone(), Box::new(put(c, &at[n.len()..], keep))),
            _ => unreachable!(),
        }
    }
    let mut ps = vec![];
    places(m, &vec![], &mut ps);
    let step = ps.len() / most + 1;
    ps.into_iter().step_by(step).flat_map(|p| (0..3).map(move |k| (p.clone(), put(m, &p, k)))).collect()
}

/// Both kinds of cuts.
fn all_cuts(m: &M, most: usize) -> Vec<(Key, M)> {
    let mut out = single_cuts(m, most);
    out.extend(wide_cuts(m, most / 4 + 1));
    out
}

/// About `most` of the keys, always the first, the last and the deepest one.
fn some(m: &Map, most: usize) -> Vec<Key> {
    let ks: Vec<Key> = m.keys().cloned().collect();
    let step = ks.len() / most + 1;
    let mut out: Vec<Key> = ks.iter().step_by(step).cloned().collect();
    out.extend(ks.last().cloned());
    out.extend(ks.iter().max_by_key(|k| k.len()).cloned());
    out.sort();
    out.dedup();
    out
}

/// Increasing, decreasing, and mixed.
fn three_orders(n: usize) -> Vec<Vec<usize>> {
    let mut s = 7;
    while n > 0 && (2..=s).any(|d| s % d == 0 && n % d == 0) {
        s += 2;
    }
    vec![(0..n).collect(), (0..n).rev().collect(), (0..n).map(|i| (i * s + n / 2) % n).collect()]
}

fn walk_family(name: &str, f: impl Fn(&Map, &M, &mut Cov) -> Case + Sync) {
    let fam = family(run().thorough);
    scope(name, fam.len() as u64, |i, cov| {
        // The most expensive ones first.
        let (n, m) = &fam[fam.len() - 1 - i as usize];
        cov.states += 1;
        cov.kind("large");
        sample(|| format!("{n}: {} entries", m.len()));
        f(m, &build(m), cov).map_err(|Fail(w)| Fail(format!("{n}: {w}")))
    });
}

/// C01, C02, C03, C06.
pub fn maps(mon: Mon) {
    fn go<N: Trie>(m: &Map, mon: Mon, cov: &mut Cov) -> Case {
        let es: Vec<(&Key, &Ent)> = m.iter().collect();
        let all: Vec<Key> = m.keys().cloned().collect();
        let few = probes(&some(m, 12));
        // Checks after every step cost the square of the size.
        let every = 1 + es.len() / 24;
        for (ord, del) in three_orders(es.len()).iter().zip([2, 0, 1]) {
            let mut ops: Vec<Op> = ord.iter().map(|i| Op::Ins(es[*i].0.clone(), es[*i].1.clone())).collect();
            ops.extend(three_orders(es.len())[del].iter().map(|i| Op::Del(es[*i].0.clone())));
            let (mut t, mut c) = (N::default(), Map::new());
            let mut full = None;
            for (i, op) in ops.iter().enumerate() {
                let r = match apply(&mut t, op) {
                    Ok(r) => r,
                    Err(p) if mon.map => return Err(Fail(format!("{}: {} panics: {p} (step {i})", N::NAME, op.text()))),
                    Err(_) => return Ok(()),
                };
                cov.transitions += 1;
                let want = match op {
                    Op::Ins(k, e) => {
                        c.insert(k.clone(), e.clone());
                        None
                    }
                    Op::Del(k) => c.remove(k).map(|e| match e {
                        Ent::Val(v) => v,
                        _ => unreachable!(),
                    }),
                };
                if mon.map && r != want {
                    return Err(Fail(format!("{}: {} returns {r:?}, expected {want:?} (step {i})", N::NAME, op.text())));
                }
                let complete = i + 1 == es.len();
                if i % every == 0 || complete || i + 1 == ops.len() {
                    let mut pr = few.clone();
                    pr.push(op.key().clone());
                    if complete {
                        pr.extend(all.iter().cloned());
                    }
                    check_all(&t, &c, mon, &pr).map_err(|w| Fail(format!("{}: {w} (step {i}: {})", N::NAME, op.text())))?;
                    cov.visit((N::NAME, &c));
                }
                if complete {
                    full = Some(t.clone());
                }
            }
            cov.traces += 1;
            if let (true, Some(f)) = (mon.shape, full) {
                let g = make::<N>(&build(m));
                if f != g || g != f {
                    return Err(Fail(format!("{}: not equal to the trie with the same contents built node by node", N::NAME)));
                }
                for k in some(m, 64) {
                    for what in 0..3 {
                        let mut m2 = m.clone();
                        match (what, &m[&k]) {
                            (0, _) => drop(m2.remove(&k)),
                            (1, Ent::Val(x)) => {
                                let mut x = x.clone();
                                *x.last_mut().unwrap() ^= 0x40;
                                m2.insert(k.clone(), Ent::Val(x));
                            }
                            (_, Ent::Val(x)) => drop(m2.insert(k.clone(), Ent::Val([&x[..], &[0]].concat()))),
                            _ => unreachable!(),
                        }
                        let g = make::<N>(&build(&m2));
                        cov.transitions += 1;
                        if f == g || g == f {
                            return Err(Fail(format!("{}: equal to a trie that differs at {}", N::NAME, key_str(&k))));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    walk_family("large", |m, _, cov| {
        go::<Hpt>(m, mon, cov)?;
        go::<Std>(m, mon, cov)
    });
    if mon.iter {
        walk_family("large-cuts", |_, fm, cov| {
            for (_, c) in all_cuts(fm, 48) {
                let es: Map = c.entries().into_iter().collect();
                check_iter(&make::<Hpt>(&c), &es)?;
                check_iter(&make::<Std>(&c), &es)?;
                cov.states += 1;
                cov.transitions += 2;
                cov.traces += 2;
            }
            Ok(())
        });
    }
}

/// C04, C05: after an update at any place of a hashed trie, every node of it
/// and of a clone taken before reports its own hash.
pub fn caches(isolation: bool) {
    walk_family("large", |m, fm, cov| {
        let base = make::<Hpt>(fm);
        warm_up(&base);
        let keys = some(m, if run().thorough { 64 } else { 9 });
        for k in &keys {
            for what in 0..5 {
                let before = base.clone();
                let mut t = base.clone();
                let r = catch(|| match what {
                    0 => t.insert(nib(k), vec![0x77; 36]),
                    1 => drop(t.delete(nib(k))),
                    2 => t.extend(vec![(nib(k), vec![0x78; 2])]),
                    3 => sharing::change_leaf(&mut t, k, &[0x79; 34]),
                    _ => sharing::change_leaf(&mut t, k, &[0x7a; 3]),
                });
                r.map_err(|p| Fail(format!("operation {what} at {} panics: {p}", key_str(k))))?;
                cov.transitions += 1;
                let err = |w: String| Fail(format!("operation {what} at {}: {w}", key_str(k)));
                if isolation {
                    if read::<Hpt>(&before)? != *fm {
                        return Err(err("the clone taken before has changed".into()));
                    }
                    check_hash(&before, &fm.root()).map_err(|w| err(format!("the clone taken before: {w}")))?;
                } else {
                    sharing::check_all_nodes(&t).map_err(err)?;
                    let mut m2 = m.clone();
                    let e = |b: u8, n| Ent::Val(vec![b; n]);
                    match what {
                        1 => drop(m2.remove(k)),
                        0 => drop(m2.insert(k.clone(), e(0x77, 36))),
                        2 => drop(m2.insert(k.clone(), e(0x78, 2))),
                        3 => drop(m2.insert(k.clone(), e(0x79, 34))),
                        _ => drop(m2.insert(k.clone(), e(0x7a, 3))),
                    }
                    check_hash(&t, &build(&m2).root()).map_err(err)?;
                }
                cov.traces += 1;
            }
        }
        if isolation {
            sharing::check_all_nodes(&base)?;
        }
        Ok(())
    });
}

pub fn c07() {
    fn one<N: Trie>(c: &M, root: &H, pr: &[Key], cov: &mut Cov) -> Case {
        let es = c.entries();
        let em: Map = es.iter().cloned().collect();
        for o in three_orders(es.len()) {
            let mut t = N::default();
            for j in o {
                let op = Op::Ins(es[j].0.clone(), es[j].1.clone());
                apply(&mut t, &op).map_err(|p| Fail(format!("{}: {} panics: {p}; partial {}", N::NAME, op.text(), map_str(&em))))?;
                cov.transitions += 1;
            }
            let err = |w: String| Fail(format!("{}: {w}; partial {}", N::NAME, map_str(&em)));
            check_hash(&t, root).map_err(err)?;
            check_gets(&t, &em, pr).map_err(err)?;
            check_iter(&t, &em).map_err(err)?;
            cov.traces += 1;
        }
        Ok(())
    }
    walk_family("large", |m, fm, cov| {
        let root = fm.root();
        let pr = probes(&some(m, 12));
        for (_, c) in all_cuts(fm, 24) {
            cov.states += 1;
            cov.kind("one hash node");
            one::<Hpt>(&c, &root, &pr, cov)?;
            one::<Std>(&c, &root, &pr, cov)?;
        }
        // Everything but one path, which gives a hash node at every level.
        let hashes = partial::node_hashes(fm);
        for k in some(m, 12) {
            cov.states += 1;
            one::<Hpt>(&partial::reduce(fm, &[k], &hashes), &root, &pr, cov)?;
        }
        Ok(())
    });
}

pub fn c08_c09(minimal: bool) {
    walk_family("large", |m, fm, cov| {
        let keys: Vec<Key> = m.keys().cloned().collect();
        let singles = some(m, 40);
        let mut sets: Vec<Vec<Key>> = vec![vec![], keys.clone(), keys.iter().rev().cloned().collect()];
        sets.extend(singles.iter().map(|k| vec![k.clone()]));
        sets.extend(partial::requests(&some(m, 6), false).into_iter().map(|k| vec![k]));
        // Every number of keys, and everything but one.
        let step = keys.len() / 40 + 1;
        for n in (2..keys.len()).step_by(step).chain([15, 16, 17, 31, 32, 33, 63, 64, 65]) {
            sets.push(keys.iter().take(n).cloned().collect());
            sets.push(keys.iter().step_by(keys.len() / n.min(keys.len()).max(1)).cloned().collect());
        }
        for k in some(m, 8) {
            sets.push(keys.iter().filter(|x| **x != k).cloned().collect());
        }
        // More requests than keys.
        sets.push([keys.clone(), keys.clone(), keys.clone()].concat());
        let (hashes, root) = (partial::node_hashes(fm), fm.root());
        let (warm, cold, std) = (make::<Hpt>(fm), make::<Hpt>(fm), make::<Std>(fm));
        warm_up(&warm);
        for ks in &sets {
            partial::subset_case(&warm, fm, m, &hashes, &root, ks, minimal, cov)?;
            partial::subset_case(&cold, fm, m, &hashes, &root, ks, minimal, cov)?;
            partial::subset_case(&std, fm, m, &hashes, &root, ks, minimal, cov)?;
        }
        for (_, c) in all_cuts(fm, 12) {
            let (cm, hashes) = (c.entries().into_iter().collect::<Map>(), partial::node_hashes(&c));
            let t = make::<Hpt>(&c);
            cov.states += 1;
            let ok: Vec<Key> = cm.keys().cloned().collect();
            partial::subset_case(&t, &c, &cm, &hashes, &root, &ok, minimal, cov)?;
            for k in some(&cm, 8) {
                partial::subset_case(&t, &c, &cm, &hashes, &root, &[k], minimal, cov)?;
            }
            for k in some(m, 4) {
                partial::subset_case(&t, &c, &cm, &hashes, &root, &[k], minimal, cov)?;
            }
        }
        Ok(())
    });
}

pub fn c10() {
    walk_family("large", |m, fm, cov| {
        let keys = some(m, 300);
        let mut sets: Vec<Vec<Key>> = keys.iter().map(|k| vec![k.clone()]).collect();
        let n = sets.len();
        sets.push(vec![]);
        sets.push(keys.clone());
        sets.push(keys.iter().step_by(2).cloned().collect());
        // One key each, all of them together, nothing in between and at the end.
        let mut seqs: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
        seqs.push((0..n).chain([n, n + 1, n + 2]).collect());
        seqs.push([n + 1, n, n + 2].into_iter().chain(0..n).collect());
        seqs.push((0..n).flat_map(|i| [i, n]).take(80).collect());
        seqs.push(vec![n + 1; 5]);
        for k in [4, 5, 8, 9, 16, 17, 32, 33, 64, 65] {
            seqs.push((0..n.min(k)).collect());
        }
        partial::batches(&make::<Hpt>(fm), m, &sets, &seqs, cov)?;
        partial::batches(&make::<Std>(fm), m, &sets, &seqs, cov)
    });
}

/// The keys around a place: those with the longest common prefixes, the first
/// and the last.
fn around(m: &Map, at: &[u8], n: usize) -> Vec<Key> {
    let common = |k: &Key| k.iter().zip(at).take_while(|(a, b)| a == b).count();
    let mut ks: Vec<&Key> = m.keys().collect();
    ks.sort_by_key(|k| std::cmp::Reverse(common(k)));
    let mut out: Vec<Key> = vec![];
    // Some of the ones below and the nearest ones beside.
    out.extend(ks.iter().filter(|k| k.starts_with(at)).take(n).map(|k| (*k).clone()));
    out.extend(ks.iter().filter(|k| !k.starts_with(at)).take(n).map(|k| (*k).clone()));
    out.extend(m.keys().next().cloned());
    out.extend(m.keys().last().cloned());
    out.sort();
    out.dedup();
    out
}

pub fn c11() {
    walk_family("large", |m, fm, cov| {
        let mut short = BTreeSet::new();
        partial::short_hashes(fm, &mut short);
        let mut roots = HashMap::new();
        let mut cut: Vec<(Key, M)> = all_cuts(fm, 24);
        let hashes = partial::node_hashes(fm);
        for k in some(m, 8) {
            cut.push((k.clone(), partial::reduce(fm, &[k], &hashes)));
        }
        for (at, c) in cut {
            let cm: Map = c.entries().into_iter().collect();
            let mut ops = vec![];
            for k in around(m, &at, 2) {
                ops.push(Op::Del(k.clone()));
                ops.push(Op::Ins(k.clone(), v(40, 0x77)));
                if k.len() < 64 {
                    ops.push(Op::Ins(cat(&k, &[3]), v(35, 1)));
                }
            }
            cov.states += 1;
            let mut u = Upd { ops: &ops, short: short.clone(), roots, full0: m, cut: &cm };
            let warm = make::<Hpt>(&c);
            warm_up(&warm);
            u.dfs(&warm, &cm, m, &mut vec![], 1, cov)?;
            u.dfs(&make::<Std>(&c), &cm, m, &mut vec![], 1, cov)?;
            roots = u.roots;
            roots.clear();
        }
        Ok(())
    });
}

pub fn c12() {
    fn one<N: Trie>(c: &M, cm: &Map, pr: &[Key], cov: &mut Cov) -> Case {
        let err = |w: String| Fail(format!("{}: {w}; partial {}", N::NAME, map_str(cm)));
        let t = make::<N>(c);
        for k in pr {
            partial::lookup(&t, cm, k, cov).map_err(err)?;
            if !hits_hash(cm, k) {
                continue;
            }
            for op in [Op::Ins(k.clone(), v(40, 5)), Op::Del(k.clone())] {
                let mut u = t.clone();
                let r = apply(&mut u, &op);
                cov.transitions += 1;
                if r.is_ok() {
                    return Err(err(format!("{} does not panic", op.text())));
                }
                cov.kind("refused");
                if read::<N>(&u).map_err(err)? != *c || u != t {
                    return Err(err(format!("the refused {} changed the trie", op.text())));
                }
            }
            // The whole batch is refused, wherever the key is.
            let mut ks: Vec<Key> = cm.keys().cloned().collect();
            if partial::below_hash(cm, k) {
                for at in [0, ks.len() / 2, ks.len()] {
                    ks.insert(at, k.clone());
                    cov.transitions += 1;
                    match partial::subset(&t, &ks) {
                        Ok(Err(_)) => {}
                        Ok(Ok(_)) => return Err(err(format!("a request for all entries and {} at position {at} gives no error", key_str(k)))),
                        Err(p) => return Err(err(format!("a request for all entries and {} panics: {p}", key_str(k)))),
                    }
                    ks.remove(at);
                }
            }
        }
        cov.traces += 1;
        Ok(())
    }
    walk_family("large", |m, fm, cov| {
        for (at, c) in all_cuts(fm, 40) {
            let cm: Map = c.entries().into_iter().collect();
            let mut pr = around(m, &at, 3);
            pr.push(at.clone());
            if at.len() < 64 {
                pr.push(cat(&at, &[7]));
                pr.push([&at[..], &vec![0; 64 - at.len()]].concat());
                pr.push(cat(&at, &[15]));
            }
            if at.len() < 62 {
                pr.push(cat(&at, &[0, 1]));
                pr.push(cat(&at, &[15, 1]));
                pr.push(cat(&at, &[15, 1, 9]));
            }
            cov.states += 1;
            one::<Hpt>(&c, &cm, &pr, cov)?;
            one::<Std>(&c, &cm, &pr, cov)?;
        }
        Ok(())
    });
}

pub fn c13() {
    walk_family("large", |m, _, cov| {
        let es: Vec<(Key, Ent)> = m.iter().map(|(k, e)| (k.clone(), e.clone())).collect();
        let n = es.len();
        for o in three_orders(n) {
            let seq: Vec<(Key, Ent)> = o.iter().map(|j| es[*j].clone()).collect();
            // Into an empty trie; into one that has half of it with other
            // values; over itself; twice in a row with other values.
            let half: Map = es.iter().step_by(2).map(|(k, _)| (k.clone(), v(5, 9))).collect();
            sharing::bulk::<Hpt>(&Map::new(), false, &seq, None, cov)?;
            sharing::bulk::<Std>(&Map::new(), false, &seq, None, cov)?;
            sharing::bulk::<Hpt>(&half, true, &seq, None, cov)?;
            sharing::bulk::<Hpt>(m, true, &seq, None, cov)?;
            let first = seq.iter().map(|(k, _)| (k.clone(), v(3, 7)));
            let twice: Vec<_> = first.chain(seq.iter().cloned()).collect();
            sharing::bulk::<Hpt>(&Map::new(), false, &twice, None, cov)?;
            let step = n / 6 + 1;
            for stop in (0..n).step_by(step).chain([n - 1]) {
                sharing::bulk::<Hpt>(&half, true, &seq, Some(stop), cov)?;
            }
            sharing::bulk::<Std>(&half, true, &seq, Some(n - 1), cov)?;
        }
        Ok(())
    });
}

pub fn c18() {
    walk_family("large", |m, fm, cov| {
        let keys = some(m, 2);
        for warm in 0..4 {
            misc::round_trip::<Hpt>(fm, warm, &keys, cov)?;
        }
        misc::round_trip::<Std>(fm, 0, &keys, cov)?;
        for (_, c) in all_cuts(fm, 6) {
            misc::round_trip::<Hpt>(&c, 1, &[], cov)?;
        }
        Ok(())
    });
}

pub fn c20() {
    walk_family("large", |m, fm, cov| {
        let base = debug::prepare(fm);
        for k in some(m, if run().thorough { 64 } else { 18 }) {
            for what in 0..3 {
                let mut m2 = m.clone();
                match what {
                    0 => drop(m2.remove(&k)),
                    1 => drop(m2.insert(k.clone(), v(34, 0x66))),
                    _ if k.len() < 64 => drop(m2.insert(cat(&k, &[6]), v(34, 0x67))),
                    _ => continue,
                }
                cov.states += 1;
                let other = debug::prepare(&build(&m2));
                debug::diff_pair(&base, &other, cov)?;
                debug::diff_pair(&other, &base, cov)?;
            }
        }
        // Values at two places.
        let ks = some(m, if run().thorough { 12 } else { 4 });
        for a in &ks {
            for b in &ks {
                let mut m2 = m.clone();
                m2.insert(a.clone(), v(34, 0x68));
                m2.insert(b.clone(), v(34, 0x69));
                cov.states += 1;
                debug::diff_pair(&base, &debug::prepare(&build(&m2)), cov)?;
            }
        }
        for (_, c) in all_cuts(fm, 12) {
            let other = debug::prepare(&c);
            cov.states += 1;
            debug::diff_pair(&base, &other, cov)?;
            debug::diff_pair(&other, &base, cov)?;
        }
        Ok(())
    });
}

pub fn c21() {
    walk_family("large", |m, fm, cov| {
        let keys = some(m, 64);
        debug::query_case::<Hpt>(fm, &keys, cov)?;
        debug::query_case::<Hpt>(fm, &probes(&some(m, 4)), cov)?;
        debug::query_case::<Std>(fm, &some(m, 4), cov)?;
        for (at, c) in all_cuts(fm, 24) {
            let mut pr = around(m, &at, 1);
            pr.push(at);
            debug::query_case::<Hpt>(&c, &pr, cov)?;
        }
        Ok(())
    });
}

pub fn c22() {
    walk_family("large", |_, fm, cov| {
        debug::stats_of::<Hpt>(fm, cov)?;
        debug::stats_of::<Std>(fm, cov)?;
        let cs = all_cuts(fm, 64);
        for (_, c) in &cs {
            debug::stats_of::<Hpt>(c, cov)?;
        }
        for (_, c) in cs.iter().step_by(8) {
            debug::compare_pair(fm, c, cov)?;
            debug::compare_pair(c, fm, cov)?;
        }
        Ok(())
    });
}

