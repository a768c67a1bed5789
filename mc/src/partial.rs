//! C07-C12 (and the partial-trie part of C06): partial tries and subsets.

use std::collections::{BTreeMap, BTreeSet, HashMap};

use eth_trie_utils::{
    nibbles::Nibbles,
    trie_subsets::{create_trie_subset, create_trie_subsets},
};

use crate::{engine::*, fail, mapcheck::*, model::*, real::*, spaces::*};

fn to_map(m: &M) -> Map {
    m.entries().into_iter().collect()
}

// ------------------------------------------------------------------ reference

/// Is the key strictly below a hash node?
pub fn below_hash(m: &Map, k: &[u8]) -> bool {
    (0..k.len()).any(|n| matches!(m.get(&k[..n]), Some(Ent::Hash(_))))
}

/// Paths (from the root) of the nodes visited on the way along `k`.
fn walk<'a>(m: &'a M, k: &[u8]) -> Vec<(Key, &'a M)> {
    let mut out = vec![];
    let (mut cur, mut d) = (m, 0);
    loop {
        out.push((k[..d].to_vec(), cur));
        match cur {
            M::Branch(cs, _) if d < k.len() => {
                cur = &cs[k[d] as usize];
                d += 1;
            }
            M::Ext(n, c) if k[d..].starts_with(n) => {
                cur = c;
                d += n.len();
            }
            _ => return out,
        }
    }
}

/// Hash of every node by path, `None` if it is embedded in its parent.
pub fn node_hashes(m: &M) -> BTreeMap<Key, Option<H>> {
    fn rec(m: &M, p: Key, out: &mut BTreeMap<Key, Option<H>>) -> M {
        let kids: Vec<M> = match m {
            M::Branch(cs, _) => cs.iter().enumerate().map(|(i, c)| rec(c, cat(&p, &[i as u8]), out)).collect(),
            M::Ext(n, c) => vec![rec(c, cat(&p, n), out)],
            _ => vec![],
        };
        let s = shallow(m, &kids);
        out.insert(p, s.hashed());
        shrink(s)
    }
    let mut out = BTreeMap::new();
    rec(m, vec![], &mut out);
    out
}

/// The subset for the given keys: everything that no key visits is hashed out.
pub fn reduce(m: &M, keys: &[Key], hashes: &BTreeMap<Key, Option<H>>) -> M {
    fn rec(m: &M, p: &Key, touched: &BTreeSet<Key>, hashes: &BTreeMap<Key, Option<H>>) -> M {
        if !touched.contains(p) {
            if let Some(h) = hashes[p] {
                return M::Hash(h);
            }
        }
        match m {
            M::Branch(cs, v) => M::Branch(
                cs.iter().enumerate().map(|(i, c)| rec(c, &cat(p, &[i as u8]), touched, hashes)).collect(),
                v.clone(),
            ),
            M::Ext(n, c) => M::Ext(n.clone(), Box::new(rec(c, &cat(p, n), touched, hashes))),
            x => x.clone(),
        }
    }
    let touched: BTreeSet<Key> = keys.iter().flat_map(|k| walk(m, k).into_iter().map(|x| x.0)).collect();
    rec(m, &vec![], &touched, hashes)
}

fn keys_str(ks: &[Key]) -> String {
    format!("[{}]", ks.iter().map(|k| key_str(k)).collect::<Vec<_>>().join(", "))
}

/// Keys to request or operate on: the pool and near misses around it.
pub fn requests(keys: &[Key], small: bool) -> Vec<Key> {
    let mut out = keys.to_vec();
    for k in keys {
        let n = k.len();
        if n > 0 {
            out.push(k[..n - 1].to_vec());
            out.push(flip(k, n - 1, 1));
        }
        if n > 1 && !small {
            out.push(k[..n / 2].to_vec());
        }
        if n < 64 {
            out.push(cat(k, &[0]));
        }
        if n < 63 && !small {
            out.push(cat(k, &[15, 1]));
        }
    }
    out.sort();
    out.dedup();
    out
}

// ------------------------------------------------------------ C06, C07: cuts

/// Iteration over every way of hashing out sub-tries.
pub fn iter_cuts(th: bool) {
    for p in pools(if th { 2 } else { 1 }) {
        scope(&format!("cuts-{}", p.name), p.len(), |i, cov| {
            let full = build(&p.get(i));
            for c in cuts(&full) {
                let es = to_map(&c);
                check_iter(&make::<Hpt>(&c), &es).map_err(|w| format!("HashedPartialTrie {c:?}: {w}"))?;
                check_iter(&make::<Std>(&c), &es).map_err(|w| format!("StandardTrie {c:?}: {w}"))?;
                cov.states += 1;
                cov.transitions += 2;
                cov.traces += 2;
            }
            Ok(())
        });
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// All orders of up to `full` elements, otherwise rotations and reversals.
fn orders(n: usize, full: usize) -> Vec<Vec<usize>> {
    if n <= full {
        return permutations(n);
    }
    let mut out = vec![];
    for r in 0..n {
        let a: Vec<usize> = (0..n).map(|i| (i + r) % n).collect();
        let mut b = a.clone();
        b.reverse();
        out.push(a);
        out.push(b);
    }
    // Every element first and last once more, against the ascending rest.
    for r in 0..n {
        let rest: Vec<usize> = (0..n).filter(|i| *i != r).collect();
        out.push([vec![r], rest.clone()].concat());
        out.push([rest, vec![r]].concat());
    }
    out
}

pub fn c07() -> ! {
    let th = run().thorough;
    let full_perm = if th { 6 } else { 5 };
    for p in pools(if th { 2 } else { 1 }) {
        scope(&format!("cuts-{}", p.name), p.len(), |i, cov| {
            let full = p.get(i);
            let fm = build(&full);
            let root = fm.root();
            fn one<N: Trie>(full: &Map, c: &M, root: &H, probes: &[Key], full_perm: usize, cov: &mut Cov) -> Case {
                let es: Vec<(Key, Ent)> = c.entries();
                let em: Map = es.iter().cloned().collect();
                let err = |how: &str, w: String| {
                    Fail(format!("{} {how}: {w}\n  full trie: {}\n  partial: {}", N::NAME, map_str(full), map_str(&em)))
                };
                let check = |t: &N| -> Result<(), String> {
                    check_hash(t, root)?;
                    check_gets(t, &em, probes)?;
                    check_iter(t, &em)
                };
                check(&make::<N>(c)).map_err(|w| err("put in place directly", w))?;
                cov.transitions += 1;
                cov.traces += 1;
                for o in orders(es.len(), full_perm) {
                    let mut t = N::default();
                    let seq: Vec<Op> = o.iter().map(|j| Op::Ins(es[*j].0.clone(), es[*j].1.clone())).collect();
                    for op in &seq {
                        apply(&mut t, op).map_err(|p| err(&ops_text(&seq), format!("{} panics: {p}", op.text())))?;
                        cov.transitions += 1;
                    }
                    check(&t).map_err(|w| err(&ops_text(&seq), w))?;
                    cov.traces += 1;
                }
                Ok(())
            }
            let pr = probes(&p.keys);
            for c in cuts(&fm) {
                cov.states += 1;
                let n = c.entries().iter().filter(|e| matches!(e.1, Ent::Hash(_))).count();
                match n {
                    0 => cov.kind("no hash node"),
                    1 => cov.kind("one hash node"),
                    _ => cov.kind("several hash nodes"),
                }
                one::<Hpt>(&full, &c, &root, &pr, full_perm, cov)?;
                one::<Std>(&full, &c, &root, &pr, full_perm, cov)?;
            }
            sample(|| format!("{}: {} hashed out in {} ways", p.name, map_str(&full), cuts(&fm).len()));
            Ok(())
        });
    }
    // Hash nodes below extensions of every length and next to entries that
    // split them at every place.
    let p = pattern();
    scope("splits", 64 * 64, |i, cov| {
        let (len, at) = (i as usize / 64 + 1, i as usize % 64);
        if at > len || len > 63 {
            return Ok(());
        }
        // A branch at depth `len`, hashed out, and a key that leaves the path
        // to it at `at` (or ends there).
        let mut sub = Map::new();
        for n in 0..2u8 {
            sub.insert(cat(&p[..len], &[n]), v(40, n));
        }
        let bh = match build(&sub) {
            M::Ext(_, b) => b.root(),
            _ => unreachable!(),
        };
        let others = [p[..at].to_vec(), if at < len { flip(&p[..at + 1], at, 1) } else { return Ok(()) }];
        for o in others {
            for vl in [1usize, 40] {
                let mut full = sub.clone();
                full.insert(o.clone(), v(vl, 9));
                let mut part = Map::new();
                part.insert(o.clone(), v(vl, 9));
                part.insert(p[..len].to_vec(), Ent::Hash(bh));
                let root = build(&full).root();
                for ord in [[0, 1], [1, 0]] {
                    let es: Vec<_> = part.iter().collect();
                    let mut a = Hpt::default();
                    let mut b = Std::default();
                    for j in ord {
                        let op = Op::Ins(es[j].0.clone(), es[j].1.clone());
                        let w = |p| Fail(format!("{} panics: {p}; partial {}", op.text(), map_str(&part)));
                        apply(&mut a, &op).map_err(w)?;
                        apply(&mut b, &op).map_err(w)?;
                        cov.transitions += 2;
                    }
                    let w = |w: String| Fail(format!("{w}; partial {} order {ord:?}", map_str(&part)));
                    check_hash(&a, &root).map_err(w)?;
                    check_hash(&b, &root).map_err(w)?;
                    check_iter(&a, &part).map_err(w)?;
                    cov.traces += 2;
                }
                cov.states += 1;
            }
        }
        Ok(())
    });
    crate::large::c07();
    crate::odd::built();
    finish(&["large", "opaque", "no hash node", "one hash node", "several hash nodes"]);
}

// ------------------------------------------------------------- C08, C09, C10

pub fn subset<N: Trie>(t: &N, keys: &[Key]) -> Result<Result<N, String>, String> {
    let ks: Vec<Nibbles> = keys.iter().map(|k| nib(k)).collect();
    catch(|| create_trie_subset(t, ks).map_err(|e| e.to_string()))
}

/// All sequences of at most `n` of the requests, also with repetitions.
fn key_seqs(reqs: &[Key], n: usize) -> Vec<Vec<Key>> {
    let mut out: Vec<Vec<Key>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| reqs.iter().map(move |r| [s.clone(), vec![r.clone()]].concat())).collect();
        out.extend(last.iter().cloned());
    }
    out.push(reqs.to_vec());
    out.push(reqs.iter().rev().cloned().collect());
    out
}

/// All sets of at most `n` of the requests (and all of them together).
fn key_sets(reqs: &[Key], n: usize) -> Vec<Vec<Key>> {
    let mut out: Vec<Vec<Key>> = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        last = last
            .iter()
            .flat_map(|s| {
                let lo = s.last().map_or(0, |x| x + 1);
                (lo..reqs.len()).map(move |j| [s.clone(), vec![j]].concat())
            })
            .collect();
        out.extend(last.iter().map(|s| s.iter().map(|j| reqs[*j].clone()).collect()));
    }
    out.push(reqs.to_vec());
    out.push(reqs.iter().rev().cloned().collect());
    if let Some(r) = reqs.first() {
        out.push(vec![r.clone(), r.clone()]);
    }
    out
}

pub fn subset_case<N: Trie>(base: &N, bm: &M, bmap: &Map, hashes: &BTreeMap<Key, Option<H>>, root: &H, keys: &[Key], minimal: bool, cov: &mut Cov) -> Case {
    let err = |w: String| Fail(format!("{}: {w}\n  trie: {}\n  requested: {}", N::NAME, map_str(bmap), keys_str(keys)));
    let got = subset(base, keys);
    cov.transitions += 1;
    let refused = keys.iter().any(|k| below_hash(bmap, k));
    if minimal {
        // C09 looks at successful results only; C08 and C12 decide the rest.
        if let (Ok(Ok(s)), false) = (&got, refused) {
            let st = read::<N>(s).map_err(err)?;
            let want = reduce(bm, keys, hashes);
            if st != want {
                return Err(err(format!("subset is {st:?}\n  expected {want:?}")));
            }
            cov.traces += 1;
            if st == *bm {
                cov.kind("nothing hashed out");
            } else {
                cov.kind("something hashed out");
            }
        }
        return Ok(());
    }
    let s = match got {
        Err(p) => return Err(err(format!("panics: {p}"))),
        Ok(Err(e)) if !refused => return Err(err(format!("error: {e}"))),
        Ok(Err(_)) => {
            cov.kind("refused");
            return Ok(());
        }
        Ok(Ok(_)) if refused => return Ok(()), // C12
        Ok(Ok(s)) => s,
    };
    check_hash(&s, root).map_err(err)?;
    cov.traces += 1;
    let st = read::<N>(&s).map_err(err)?;
    for k in keys {
        let (a, b) = (walk(bm, k), walk(&st, k));
        let shallow = |m: &M| match m {
            M::Branch(_, v) => M::Branch(vec![], v.clone()),
            M::Ext(n, _) => M::Ext(n.clone(), Box::new(M::Empty)),
            x => x.clone(),
        };
        if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| x.0 != y.0 || shallow(x.1) != shallow(y.1)) {
            return Err(err(format!("the path of {} is not preserved: {st:?}", key_str(k))));
        }
        check_gets(&s, bmap, &[k.clone()]).map_err(err)?;
        cov.kind(if get_val(bmap, k).is_some() { "present key" } else { "absent key" });
    }
    if read::<N>(base).map_err(err)? != *bm {
        return Err(err("the original trie was changed".into()));
    }
    check_hash(base, root).map_err(|w| err(format!("original: {w}")))
}

pub fn c08_c09(minimal: bool) -> ! {
    let th = run().thorough;
    for p in pools(2) {
        let reqs = requests(&p.keys, !th);
        let sets2 = key_seqs(&reqs, if th || p.len() < 300 { 2 } else { 1 });
        let sets1 = key_seqs(&reqs, if th { 2 } else { 1 });
        scope(&format!("full-{}", p.name), p.len(), |i, cov| {
            let map = p.get(i);
            let bm = build(&map);
            let (hashes, root) = (node_hashes(&bm), bm.root());
            let (cold, warm, std) = (make::<Hpt>(&bm), make::<Hpt>(&bm), make::<Std>(&bm));
            warm_up(&warm);
            cov.states += 1;
            for ks in &sets2 {
                subset_case(&warm, &bm, &map, &hashes, &root, ks, minimal, cov)?;
                subset_case(&std, &bm, &map, &hashes, &root, ks, minimal, cov)?;
                subset_case(&cold.clone(), &bm, &map, &hashes, &root, ks, minimal, cov)?;
            }
            // A fresh trie per request: nothing cached at all.
            for ks in sets2.iter().take(1 + reqs.len()) {
                subset_case(&make::<Hpt>(&bm), &bm, &map, &hashes, &root, ks, minimal, cov)?;
            }
            sample(|| format!("{}: {} subset for {}", p.name, map_str(&map), keys_str(&sets2[sets2.len() / 2])));
            Ok(())
        });
        // Of the large pools only the tries with few entries.
        let most = if !th && p.len() > 550 { 4 } else { usize::MAX };
        scope(&format!("cut-{}", p.name), p.len(), |i, cov| {
            let map = p.get(i);
            if map.len() > most {
                return Ok(());
            }
            for c in cuts(&build(&map)).into_iter().skip(1) {
                let (map, hashes, root) = (to_map(&c), node_hashes(&c), c.root());
                let (a, b) = (make::<Hpt>(&c), make::<Std>(&c));
                cov.states += 1;
                for ks in &sets1 {
                    subset_case(&a, &c, &map, &hashes, &root, ks, minimal, cov)?;
                    subset_case(&b, &c, &map, &hashes, &root, ks, minimal, cov)?;
                }
            }
            Ok(())
        });
    }
    crate::large::c08_c09(minimal);
    crate::odd::subsets(minimal);
    if minimal {
        finish(&["large", "nothing hashed out", "something hashed out"]);
    }
    finish(&["large", "present key", "absent key", "refused"]);
}

/// Every batch gives the same as its requests one by one.
pub fn batches<N: Trie>(t: &N, map: &Map, sets: &[Vec<Key>], seqs: &[Vec<usize>], cov: &mut Cov) -> Case {
    let single: Vec<_> = sets
        .iter()
        .map(|s| match subset(t, s) {
            Ok(Ok(x)) => Some(read::<N>(&x)),
            _ => None,
        })
        .collect();
    for q in seqs {
        let ks: Vec<Vec<Nibbles>> = q.iter().map(|j| sets[*j].iter().map(|k| nib(k)).collect()).collect();
        let err = |w: String| {
            let s: Vec<String> = q.iter().map(|j| keys_str(&sets[*j])).collect();
            Fail(format!("{}: {w}\n  trie: {}\n  key sets: {}", N::NAME, map_str(map), s.join(" ")))
        };
        let got = catch(|| create_trie_subsets(t, ks)).map_err(|p| err(format!("panics: {p}")))?;
        cov.transitions += q.len() as u64;
        cov.traces += 1;
        let bad = q.iter().any(|j| single[*j].is_none());
        match got {
            Err(e) if !bad => return Err(err(format!("error: {e}"))),
            Err(_) => cov.kind("refused"),
            Ok(_) if bad => return Err(err("no error, although a single request gives one".into())),
            Ok(v) => {
                if v.len() != q.len() {
                    return Err(err(format!("{} subsets", v.len())));
                }
                for (n, (x, j)) in v.iter().zip(q).enumerate() {
                    if Some(read::<N>(x)) != single[*j] {
                        return Err(err(format!("subset {n} is {:?}, alone it is {:?}", read::<N>(x), single[*j])));
                    }
                }
                cov.kind("batch");
            }
        }
    }
    Ok(())
}

pub fn c10() -> ! {
    let th = run().thorough;
    for p in pools(if th { 2 } else { 1 }) {
        let reqs = requests(&p.keys, true);
        // Key sets: none, every single request, the pool keys in pairs, everything.
        let mut sets: Vec<Vec<Key>> = vec![vec![]];
        sets.extend(reqs.iter().map(|k| vec![k.clone()]));
        sets.extend(p.keys.windows(2).map(|w| w.to_vec()));
        sets.push(p.keys.clone());
        // For longer batches: nothing, every stored key alone, everything.
        let small: Vec<usize> = (0..sets.len())
            .filter(|i| match &sets[*i][..] {
                [k] => p.keys.len() <= 8 && p.keys.contains(k),
                l => l.is_empty() || l.len() == p.keys.len(),
            })
            .collect();
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        seqs.extend((0..sets.len()).map(|a| vec![a]));
        for a in 0..sets.len() {
            for b in 0..sets.len() {
                seqs.push(vec![a, b]);
            }
        }
        for a in &small {
            for b in &small {
                for c in &small {
                    seqs.push(vec![*a, *b, *c]);
                }
            }
        }
        scope(&format!("full-{}", p.name), p.len(), |i, cov| {
            let map = p.get(i);
            let bm = build(&map);
            cov.states += 1;
            batches(&make::<Hpt>(&bm), &map, &sets, &seqs, cov)?;
            batches(&make::<Std>(&bm), &map, &sets, &seqs, cov)?;
            sample(|| format!("{}: {} with {} batches", p.name, map_str(&map), seqs.len()));
            Ok(())
        });
        if p.len() <= 64 || th && p.len() <= 300 {
            let seqs: Vec<Vec<usize>> = seqs.iter().filter(|s| s.len() <= 2).cloned().collect();
            scope(&format!("cut-{}", p.name), p.len(), |i, cov| {
                for c in cuts(&build(&p.get(i))).into_iter().skip(1) {
                    cov.states += 1;
                    batches(&make::<Hpt>(&c), &to_map(&c), &sets, &seqs, cov)?;
                }
                Ok(())
            });
        }
    }
    crate::large::c10();
    finish(&["large", "batch", "refused"]);
}

// ------------------------------------------------------------------ C11, C12

pub const COLLAPSE: &str = "delete-collapses-onto-hash: deleting a key so that a branch keeps a single child, which is a hash node standing for a leaf or an extension, gives an extension over the hash node and so a wrong root hash";

/// Does the trie have an extension over a hash node that stands for a leaf or
/// an extension (`short` has their hashes)?
fn ext_over(m: &M, short: &BTreeSet<H>) -> bool {
    match m {
        M::Branch(cs, _) => cs.iter().any(|c| ext_over(c, short)),
        M::Ext(_, c) => match &**c {
            M::Hash(h) => short.contains(h),
            c => ext_over(c, short),
        },
        _ => false,
    }
}

/// Hashes of all leaf and extension nodes.
pub fn short_hashes(m: &M, out: &mut BTreeSet<H>) {
    match m {
        M::Branch(cs, _) => cs.iter().for_each(|c| short_hashes(c, out)),
        M::Ext(_, c) => {
            out.extend(m.hashed());
            short_hashes(c, out);
        }
        M::Leaf(..) => out.extend(m.hashed()),
        _ => {}
    }
}

pub struct Upd<'a> {
    pub ops: &'a [Op],
    pub short: BTreeSet<H>,
    pub roots: HashMap<Map, H>,
    pub full0: &'a Map,
    pub cut: &'a Map,
}

impl Upd<'_> {
    fn root(&mut self, m: &Map) -> H {
        if let Some(h) = self.roots.get(m) {
            return *h;
        }
        let h = build(m).root();
        self.roots.insert(m.clone(), h);
        h
    }

    /// All update sequences of up to `depth` operations.
    pub fn dfs<N: Trie>(&mut self, t: &N, part: &Map, full: &Map, hist: &mut Vec<Op>, depth: usize, cov: &mut Cov) -> Case {
        if depth == 0 {
            cov.traces += 1;
            return Ok(());
        }
        for op in self.ops {
            let mut t2 = t.clone();
            let got = apply(&mut t2, op);
            hist.push(op.clone());
            let err = |s: &Self, w: String, hist: &[Op]| {
                Fail(format!(
                    "{}: {w}\n  full trie: {}\n  partial trie: {}\n  updates: {}",
                    N::NAME, map_str(s.full0), map_str(s.cut), ops_text(hist)
                ))
            };
            cov.transitions += 1;
            let (ret, full2) = match expect(full, op) {
                Exp::Done(r, m) => (r, m),
                Exp::Panic => unreachable!(),
            };
            match (got, expect(part, op)) {
                (Err(_), Exp::Panic) => cov.kind("refused"),
                (Err(p), Exp::Done(_, part2)) => {
                    // Refusing the problematic collapse would be correct as well.
                    if !(matches!(op, Op::Del(_)) && ext_over(&build(&part2), &self.short)) {
                        return Err(err(self, format!("{} panics: {p}", op.text()), hist));
                    }
                }
                (Ok(r), e) => {
                    if r != ret {
                        return Err(err(self, format!("{} returns {r:?}, on the full trie {ret:?}", op.text()), hist));
                    }
                    let h = catch(|| t2.hash().0).map_err(|p| err(self, format!("hash panics: {p}"), hist))?;
                    let want = self.root(&full2);
                    let part2 = match e {
                        Exp::Panic => part.clone(), // not refused: it has to have had no effect on the hash
                        Exp::Done(_, m) => m,
                    };
                    if h != want {
                        let pm = build(&part2);
                        if ext_over(&pm, &self.short) && h == pm.root() {
                            known_finding(COLLAPSE);
                            cov.kind("known finding");
                        } else {
                            return Err(err(self, format!("root hash {} after {}, that of the full trie is {}", hex(&h), op.text(), hex(&want)), hist));
                        }
                    } else {
                        cov.kind(if matches!(op, Op::Del(_)) && ret.is_some() { "deleted" } else { "updated" });
                    }
                    self.dfs(&t2, &part2, &full2, hist, depth - 1, cov)?;
                }
            }
            hist.pop();
        }
        Ok(())
    }
}

pub fn c11() -> ! {
    let th = run().thorough;
    // Hash nodes that stand for branches: closure over all histories.
    let mon = Mon { map: true, hash: true, ..Mon::default() };
    for sp in hash_spaces(th) {
        closure::<Hpt>(&sp, mon);
        closure::<Std>(&sp, mon);
    }
    // Every cut of every full trie, every short update sequence.
    for p in pools(if th { 2 } else { 1 }) {
        let mut ops: Vec<Op> = vec![];
        for k in &p.keys {
            ops.push(Op::Del(k.clone()));
            ops.push(Op::Ins(k.clone(), v(40, 0x77)));
        }
        ops.push(Op::Ins(p.keys[0].clone(), v(1, 0x77)));
        let extra = if p.keys.iter().any(|k| k.len() == 64) { flip(&p.keys[0], 40, 3) } else { cat(&p.keys[p.keys.len() - 1], &[0, 5]) };
        ops.push(Op::Ins(extra.clone(), v(35, 1)));
        ops.push(Op::Del(extra));
        let depth = if p.len() <= 300 || th { 2 } else { 1 };
        let depth = if th && p.len() <= 64 { 3 } else { depth };
        scope(&format!("updates-{}", p.name), p.len(), |i, cov| {
            let full = p.get(i);
            let fm = build(&full);
            let mut short = BTreeSet::new();
            short_hashes(&fm, &mut short);
            let mut roots = HashMap::new();
            for c in cuts(&fm) {
                let cm = to_map(&c);
                cov.states += 1;
                let mut u = Upd { ops: &ops, short: short.clone(), roots, full0: &full, cut: &cm };
                let warm = make::<Hpt>(&c);
                warm_up(&warm);
                u.dfs(&warm, &cm, &full, &mut vec![], depth, cov)?;
                u.dfs(&make::<Std>(&c), &cm, &full, &mut vec![], depth.min(2), cov)?;
                roots = u.roots;
            }
            sample(|| format!("{}: {} x {} cuts x {} operations, depth {depth}", p.name, map_str(&full), cuts(&fm).len(), ops.len()));
            Ok(())
        });
        // Subsets made by the crate: requested keys are never refused.
        scope(&format!("requested-{}", p.name), p.len(), |i, cov| {
            let full = p.get(i);
            let fm = build(&full);
            let base = make::<Hpt>(&fm);
            let mut short = BTreeSet::new();
            short_hashes(&fm, &mut short);
            let mut roots = HashMap::new();
            let sets = key_sets(&p.keys, 2);
            for ks in &sets {
                let s = match subset(&base, ks) {
                    Ok(Ok(s)) => s,
                    _ => continue, // C08
                };
                let cm = to_map(&read::<Hpt>(&s)?);
                let ops: Vec<Op> = ks.iter().flat_map(|k| [Op::Del(k.clone()), Op::Ins(k.clone(), v(40, 0x77))]).collect();
                if ks.iter().any(|k| hits_hash(&cm, k)) {
                    fail!("a requested key leads into a hash node: {} {}", map_str(&full), keys_str(ks));
                }
                cov.states += 1;
                let mut u = Upd { ops: &ops, short: short.clone(), roots, full0: &full, cut: &cm };
                u.dfs(&s, &cm, &full, &mut vec![], if ks.len() <= 2 { 3 } else { 1 }, cov)?;
                roots = u.roots;
            }
            Ok(())
        });
    }
    crate::large::c11();
    crate::odd::updates();
    finish(&["large", "opaque", "refused", "deleted", "updated", "known finding", "overwrite"]);
}

/// A lookup and a subset request that lead into a hash node.
pub fn lookup<N: Trie>(t: &N, m: &Map, k: &Key, cov: &mut Cov) -> Result<(), String> {
    if !hits_hash(m, k) {
        return Ok(());
    }
    let g = catch(|| t.get(nib(k)).map(|v| v.to_vec())).map_err(|p| format!("get {} panics: {p}", key_str(k)))?;
    if g.is_some() {
        return Err(format!("get {} returns {g:?} although it leads into a hash node", key_str(k)));
    }
    let below = below_hash(m, k);
    cov.kind(if below { "lookup below a hash node" } else { "lookup of a hash node" });
    cov.transitions += 2;
    match subset(t, &[k.clone()]) {
        Err(p) => return Err(format!("create_trie_subset for {} panics: {p}", key_str(k))),
        Ok(Ok(_)) if below => return Err(format!("create_trie_subset for {} gives no error", key_str(k))),
        Ok(Err(e)) if !below => return Err(format!("create_trie_subset for {} gives an error: {e}", key_str(k))),
        _ => {}
    }
    let others = catch(|| create_trie_subsets(t, vec![vec![], vec![nib(k)]]).is_ok())
        .map_err(|p| format!("create_trie_subsets for {} panics: {p}", key_str(k)))?;
    if others == below {
        return Err(format!("create_trie_subsets for {}: ok is {others}", key_str(k)));
    }
    Ok(())
}

/// Lookups and subset requests around hash nodes.
pub fn check_lookups<N: Trie>(t: &N, m: &Map, probes: &[Key], cov: &mut Cov) -> Result<(), String> {
    for k in probes {
        lookup(t, m, k, cov)?;
        if !hits_hash(m, k) {
            continue;
        }
        let below = below_hash(m, k);
        // Together with any other stored key, in both orders.
        for o in m.keys() {
            for ks in [[o.clone(), k.clone()], [k.clone(), o.clone()]] {
                cov.transitions += 1;
                match subset(t, &ks) {
                    Err(p) => return Err(format!("create_trie_subset for {} panics: {p}", keys_str(&ks))),
                    Ok(r) if r.is_err() != below => return Err(format!("create_trie_subset for {}: ok is {}", keys_str(&ks), r.is_ok())),
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

pub fn c12() -> ! {
    let th = run().thorough;
    let mon = Mon { refuse: true, ..Mon::default() };
    for sp in hash_spaces(th) {
        closure::<Hpt>(&sp, mon);
        closure::<Std>(&sp, mon);
    }
    crate::large::c12();
    crate::odd::lookups();
    finish(&["large", "opaque", "refused", "lookup below a hash node", "lookup of a hash node"]);
}
