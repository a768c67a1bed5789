//! C01, C02, C03, C06: closure of all histories of inserts, overwrites and
//! deletes over bounded pools of keys and values.

use std::{
    collections::{hash_map::DefaultHasher, HashMap},
    hash::{Hash, Hasher},
    sync::Mutex,
    time::Instant,
};

use ethereum_types::H256;

use crate::{engine::*, fail, model::*, real::*, spaces::*};

/// Which oracles are applied.
#[derive(Clone, Copy, Default)]
pub struct Mon {
    pub map: bool,
    pub hash: bool,
    pub shape: bool,
    pub iter: bool,
    /// Operations on hash nodes are refused without any effect.
    pub refuse: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Ins(Key, Ent),
    Del(Key),
}

impl Op {
    pub fn text(&self) -> String {
        match self {
            Op::Ins(k, Ent::Val(v)) => format!("insert {} {}", key_str(k), hex(v)),
            Op::Ins(k, Ent::Hash(h)) => format!("insert_hash {} {}", key_str(k), hex(h)),
            Op::Del(k) => format!("delete {}", key_str(k)),
        }
    }
    pub fn key(&self) -> &Key {
        match self {
            Op::Ins(k, _) | Op::Del(k) => k,
        }
    }
}

pub fn ops_text(ops: &[Op]) -> String {
    ops.iter().map(|o| o.text()).collect::<Vec<_>>().join("; ")
}

/// What an operation has to do.
pub enum Exp {
    /// Refuse with a panic and change nothing.
    Panic,
    /// Return this and give these contents.
    Done(Option<Vec<u8>>, Map),
}

/// The specification of insert and delete on (partial) tries.
pub fn expect(m: &Map, op: &Op) -> Exp {
    if hits_hash(m, op.key()) {
        return Exp::Panic;
    }
    let mut m2 = m.clone();
    match op {
        Op::Ins(k, Ent::Hash(_)) if occupied(m, k) => Exp::Panic,
        Op::Ins(k, e) => {
            m2.insert(k.clone(), e.clone());
            Exp::Done(None, m2)
        }
        Op::Del(k) => {
            let r = m2.remove(k).map(|e| match e {
                Ent::Val(v) => v,
                Ent::Hash(_) => unreachable!(),
            });
            Exp::Done(r, m2)
        }
    }
}

pub fn apply<N: Trie>(t: &mut N, op: &Op) -> Result<Option<Vec<u8>>, String> {
    catch(|| match op {
        Op::Ins(k, e) => {
            t.insert(nib(k), voh(e));
            None
        }
        Op::Del(k) => t.delete(nib(k)),
    })
}

pub fn get_val<'a>(m: &'a Map, k: &[u8]) -> Option<&'a [u8]> {
    match m.get(k) {
        Some(Ent::Val(v)) => Some(v),
        _ => None,
    }
}

pub fn check_gets<N: Trie>(t: &N, m: &Map, probes: &[Key]) -> Result<(), String> {
    for k in probes {
        let got = catch(|| t.get(nib(k)).map(|v| v.to_vec()))
            .map_err(|p| format!("get {} panics: {p}", key_str(k)))?;
        let want = get_val(m, k);
        if got.as_deref() != want {
            return Err(format!(
                "get {} returns {:?}, expected {:?}",
                key_str(k),
                got.map(|v| hex(&v)),
                want.map(hex)
            ));
        }
    }
    Ok(())
}

pub fn check_iter<N: Trie>(t: &N, m: &Map) -> Result<(), String> {
    let cap = m.len() + 8;
    let items = catch(|| collect_items(t, cap)).map_err(|p| format!("items panics: {p}"))??;
    let mut sorted = items.clone();
    sorted.sort();
    let want: Vec<(Key, Ent)> = m.iter().map(|(k, e)| (k.clone(), e.clone())).collect();
    if sorted != want {
        let show = |v: &Vec<(Key, Ent)>| {
            v.iter()
                .map(|(k, e)| map_str(&Map::from([(k.clone(), e.clone())])))
                .collect::<Vec<_>>()
                .join(" ")
        };
        return Err(format!("items yields {} expected (in any order) {}", show(&items), show(&want)));
    }
    let keys = catch(|| t.keys().take(cap).map(|k| unnib(&k)).collect::<Result<Vec<_>, _>>())
        .map_err(|p| format!("keys panics: {p}"))??;
    let vals = catch(|| t.values().take(cap).map(unvoh).collect::<Vec<_>>())
        .map_err(|p| format!("values panics: {p}"))?;
    if keys != items.iter().map(|i| i.0.clone()).collect::<Vec<_>>() {
        return Err("keys() disagrees with items()".into());
    }
    if vals != items.iter().map(|i| i.1.clone()).collect::<Vec<_>>() {
        return Err("values() disagrees with items()".into());
    }
    Ok(())
}

pub fn check_hash<N: Trie>(t: &N, want: &H) -> Result<(), String> {
    let h = catch(|| t.hash()).map_err(|p| format!("hash panics: {p}"))?;
    if h.0 != *want {
        return Err(format!("hash is {} expected {}", hex(&h.0), hex(want)));
    }
    Ok(())
}

/// All oracles on one trie with known contents.
pub fn check_all<N: Trie>(t: &N, m: &Map, mon: Mon, probes: &[Key]) -> Result<(), String> {
    if mon.map {
        check_gets(t, m, probes)?;
    }
    if mon.iter {
        let before = read::<N>(t)?;
        check_iter(t, m)?;
        if read::<N>(t)? != before {
            return Err("iterating changed the trie".into());
        }
    }
    if mon.shape || mon.hash {
        let r = build(m);
        if mon.shape && read::<N>(t)? != r {
            return Err(format!("structure is {:?}, expected {:?}", read::<N>(t)?, r));
        }
        if mon.hash {
            check_hash(t, &r.root())?;
        }
    }
    Ok(())
}

/// Executes one history from the empty trie with all oracles after every step.
pub fn history<N: Trie>(ops: &[Op], mon: Mon, probes: &[Key], cov: &mut Cov) -> Case {
    let mut t = N::default();
    let mut m = Map::new();
    for (i, op) in ops.iter().enumerate() {
        let err = |w: String| {
            Fail(format!("{}: {}\n  after: {}\n  contents: {}", N::NAME, w, ops_text(&ops[..=i]), map_str(&m)))
        };
        let got = apply(&mut t, op);
        match expect(&m, op) {
            Exp::Panic => unreachable!("histories have no hash nodes"),
            Exp::Done(ret, m2) => {
                match got {
                    Err(p) if mon.map => return Err(err(format!("{} panics: {p}", op.text()))),
                    Err(_) => return Ok(()), // Another property's business (C01).
                    Ok(r) if mon.map && r != ret => {
                        return Err(err(format!("{} returns {:?} expected {:?}", op.text(), r, ret)))
                    }
                    Ok(_) => {}
                }
                m = m2;
            }
        }
        let err = |w: String| {
            Fail(format!("{}: {}\n  after: {}\n  contents: {}", N::NAME, w, ops_text(&ops[..=i]), map_str(&m)))
        };
        check_all(&t, &m, mon, probes).map_err(err)?;
        cov.transitions += 1;
        cov.visit((N::NAME, &m));
        if matches!(op, Op::Del(_)) {
            cov.kind("delete");
        }
    }
    cov.traces += 1;
    Ok(())
}

fn shash(m: &M) -> u64 {
    let mut h = DefaultHasher::new();
    m.hash(&mut h);
    h.finish()
}

/// Moves tries between workers even if they are not made for that; there is
/// only one worker then (see `threads`).
struct Sh<N>(N);

unsafe impl<N> Send for Sh<N> {}
unsafe impl<N> Sync for Sh<N> {}

struct St<N> {
    code: Vec<u8>,
    trie: Sh<N>,
    /// Structure hash of `trie`.
    sh: u64,
    parent: usize,
    op: Option<Op>,
}

/// What is known about contents: reference structure hash, root, first trie.
struct Ref {
    sh: u64,
    root: H,
    states: Vec<usize>,
}

fn path<N>(sts: &[St<N>], mut i: usize) -> Vec<Op> {
    let mut out = vec![];
    while let Some(op) = &sts[i].op {
        out.push(op.clone());
        i = sts[i].parent;
    }
    out.reverse();
    out
}

/// Breadth-first closure over all contents of a space; every insert, overwrite
/// and delete (of present and absent keys) is executed from every state.
pub fn closure<N: Trie>(sp: &Space, mon: Mon) {
    let name = format!("{}/{}", sp.name, N::NAME);
    if skip_scope(&name) {
        return;
    }
    let t0 = Instant::now();
    let partial = sp.vals.iter().any(|e| matches!(e, Ent::Hash(_)));
    let probes = probes(&sp.keys);
    let decode = |code: &[u8]| -> Map {
        code.iter()
            .enumerate()
            .filter(|(_, c)| **c > 0)
            .map(|(i, c)| (sp.keys[i].clone(), sp.vals[*c as usize - 1].clone()))
            .collect()
    };
    let mut total = Cov::default();
    let mut sts: Vec<St<N>> = vec![];
    let mut refs: HashMap<Vec<u8>, Ref> = HashMap::new();

    let zero = vec![0u8; sp.keys.len()];
    let empty = N::default();
    if let Err(w) = check_all(&empty, &Map::new(), mon, &probes) {
        violation(&name, None, &format!("{}: new trie: {w}", N::NAME));
    }
    let e = build(&Map::new());
    refs.insert(zero.clone(), Ref { sh: shash(&e), root: e.root(), states: vec![0] });
    sts.push(St { code: zero, trie: Sh(empty), sh: shash(&e), parent: 0, op: None });

    let mut lo = 0;
    while lo < sts.len() {
        // One block of the current frontier at a time keeps memory bounded.
        let hi = sts.len().min(lo + 4096);
        let found: Mutex<Vec<(usize, u8, usize, Op, Sh<N>, u64, Vec<u8>)>> = Mutex::default();
        let (cov, bad) = par(&name, (hi - lo) as u64, &|i, cov: &mut Cov| {
            let si = lo + i as usize;
            let s = &sts[si];
            let m = decode(&s.code);
            let live = m.len();
            let err = |w: String, op: &Op| {
                let mut ops = path(&sts, si);
                ops.push(op.clone());
                Fail(format!("{}: {}\n  history: {}\n  contents before the last step: {}", N::NAME, w, ops_text(&ops), map_str(&m)))
            };
            let mut local = vec![];
            for (ki, k) in sp.keys.iter().enumerate() {
                for choice in 0..=sp.vals.len() as u8 {
                    if choice > 0 && s.code[ki] == 0 && live >= sp.max_live {
                        continue;
                    }
                    let op = match choice {
                        0 => Op::Del(k.clone()),
                        c => Op::Ins(k.clone(), sp.vals[c as usize - 1].clone()),
                    };
                    let mut t = s.trie.0.clone();
                    let got = apply(&mut t, &op);
                    cov.transitions += 1;
                    if partial && matches!(expect(&m, &op), Exp::Panic) {
                        cov.kind("refused");
                        if mon.refuse {
                            check_refused(&t, &s.trie.0, got, &m, &op, sp).map_err(|w| err(w, &op))?;
                        }
                        continue;
                    }
                    let want = match (&op, s.code[ki]) {
                        (Op::Del(_), c) if c > 0 => match &sp.vals[c as usize - 1] {
                            Ent::Val(v) => Some(v.clone()),
                            _ => unreachable!("deleting a hash node is refused"),
                        },
                        _ => None,
                    };
                    match (&op, s.code[ki]) {
                        (Op::Del(_), 0) => cov.kind("delete absent"),
                        (Op::Del(_), _) => cov.kind("delete present"),
                        (_, 0) => cov.kind("insert new"),
                        _ => cov.kind("overwrite"),
                    }
                    match got {
                        Err(p) if mon.map => return Err(err(format!("{} panics: {p}", op.text()), &op)),
                        Err(_) => continue, // C01's business
                        Ok(r) if mon.map && r != want => {
                            return Err(err(
                                format!("{} returns {:?} expected {:?}", op.text(), r.map(|v| hex(&v)), want.map(|v| hex(&v))),
                                &op,
                            ))
                        }
                        Ok(_) => {}
                    }
                    let mut code = s.code.clone();
                    code[ki] = choice;
                    let st = read::<N>(&t).map_err(|w| err(w, &op))?;
                    let sh = shash(&st);
                    let known = refs.get(&code);
                    if mon.shape {
                        // Equality must depend on the contents only.
                        if (t == s.trie.0) != (code == s.code) || (s.trie.0 == t) != (code == s.code) {
                            return Err(err(format!("== is {} after {}", t == s.trie.0, op.text()), &op));
                        }
                        if let Some(r) = known {
                            let first = &sts[r.states[0]].trie.0;
                            if t != *first || *first != t {
                                return Err(err(
                                    format!("not equal to the trie with the same contents made by: {}", ops_text(&path(&sts, r.states[0]))),
                                    &op,
                                ));
                            }
                            if sh != r.sh {
                                return Err(err(format!("structure {st:?} is not canonical"), &op));
                            }
                        }
                    }
                    if mon.hash {
                        if let Some(r) = known {
                            check_hash(&t, &r.root).map_err(|w| err(w, &op))?;
                        }
                    }
                    let seen = known.map_or(false, |r| r.states.iter().any(|x| sts[*x].sh == sh));
                    if !seen {
                        local.push((si, choice, ki, op, Sh(t), sh, code));
                    }
                }
            }
            found.lock().unwrap().extend(local);
            Ok(())
        });
        total.add(&cov);
        if let Some((_, w)) = bad {
            violation(&name, None, &w);
        }
        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|f| (f.0, f.2, f.1));
        // Keep the first discovery of each (contents, structure).
        let mut fresh: Vec<(usize, Op, Sh<N>, u64, Vec<u8>)> = vec![];
        let mut seen: HashMap<(Vec<u8>, u64), ()> = HashMap::new();
        let mut variants: HashMap<Vec<u8>, usize> = HashMap::new();
        for (si, _, _, op, t, sh, code) in found {
            let n = variants.entry(code.clone()).or_insert_with(|| refs.get(&code).map_or(0, |r| r.states.len()));
            // Non-canonical variants exist only if C03 is violated; a few suffice.
            if *n < 3 && seen.insert((code.clone(), sh), ()).is_none() {
                *n += 1;
                fresh.push((si, op, t, sh, code));
            }
        }
        // Full oracles on every new state, with the reference computed once.
        let out: Mutex<Vec<(usize, u64, H)>> = Mutex::default();
        let (cov, bad) = par(&name, fresh.len() as u64, &|i, cov: &mut Cov| {
            let (si, op, Sh(t), sh, code) = &fresh[i as usize];
            let m = decode(code);
            let r = build(&m);
            let err = |w: String| {
                let mut ops = path(&sts, *si);
                ops.push(op.clone());
                Fail(format!("{}: {}\n  history: {}\n  expected contents: {}", N::NAME, w, ops_text(&ops), map_str(&m)))
            };
            if mon.shape && *sh != shash(&r) {
                return Err(err(format!("structure {:?} is not canonical, expected {:?}", read::<N>(t)?, r)));
            }
            check_all(t, &m, Mon { shape: false, hash: false, ..mon }, &probes).map_err(err)?;
            if mon.refuse {
                crate::partial::check_lookups(t, &m, &probes, cov).map_err(err)?;
            }
            let root = if mon.hash { r.root() } else { [0; 32] };
            if mon.hash {
                check_hash(t, &root).map_err(err)?;
                // The encoding a parent would use, then once more from the cache.
                let u: N = make(&r);
                for _ in 0..2 {
                    let h = catch(|| H256::from(&u.hash_intern())).map_err(|p| err(format!("hash_intern panics: {p}")))?;
                    if h.0 != root {
                        return Err(err(format!("hash_intern gives {} expected {}", hex(&h.0), hex(&root))));
                    }
                    check_hash(&u, &root).map_err(err)?;
                }
            }
            cov.states += 1;
            cov.traces += 1;
            out.lock().unwrap().push((i as usize, shash(&r), root));
            Ok(())
        });
        total.add(&cov);
        if let Some((_, w)) = bad {
            violation(&name, None, &w);
        }
        let mut out = out.into_inner().unwrap();
        out.sort();
        lo = hi;
        for ((si, op, t, sh, code), (_, rsh, root)) in fresh.into_iter().zip(out) {
            let id = sts.len();
            refs.entry(code.clone()).or_insert_with(|| Ref { sh: rsh, root, states: vec![] }).states.push(id);
            sts.push(St { code, trie: t, sh, parent: si, op: Some(op) });
        }
    }
    total.states += 1;
    if let Some(i) = [sts.len() / 2, sts.len() - 1].into_iter().max_by_key(|i| path(&sts, *i).len()) {
        sample(|| format!("{name}: {}", ops_text(&path(&sts, i))));
    }
    record(&name, sts.len() as u64, &total, t0);
}

/// An operation that has to be refused must panic and leave `t` as `before`.
fn check_refused<N: Trie>(
    t: &N,
    before: &N,
    got: Result<Option<Vec<u8>>, String>,
    m: &Map,
    op: &Op,
    sp: &Space,
) -> Result<(), String> {
    if got.is_ok() {
        return Err(format!("{} does not panic (returns {got:?})", op.text()));
    }
    let r = build(m);
    if read::<N>(t)? != read::<N>(before)? || t != before {
        return Err(format!("the refused {} changed the trie to {:?}", op.text(), read::<N>(t)?));
    }
    check_iter(t, m).map_err(|w| format!("after the refused {}: {w}", op.text()))?;
    if read::<N>(t)? == r {
        check_hash(t, &r.root()).map_err(|w| format!("after the refused {}: {w}", op.text()))?;
        // Life goes on: the next permitted update works as if nothing happened.
        for k in &sp.keys {
            let next = Op::Ins(k.clone(), v(35, 0x55));
            if let Exp::Done(_, m2) = expect(m, &next) {
                let mut t = t.clone();
                apply(&mut t, &next).map_err(|p| format!("{} panics after the refused {}: {p}", next.text(), op.text()))?;
                check_hash(&t, &build(&m2).root()).map_err(|w| format!("{} after the refused {}: {w}", next.text(), op.text()))?;
                break;
            }
        }
    }
    Ok(())
}

fn both(name: &str, n: u64, f: impl Fn(u64, &mut Cov, bool) -> Case + Sync) {
    scope(name, n, |i, cov| {
        f(i, cov, false)?;
        f(i, cov, true)
    });
}

fn hist(ops: &[Op], mon: Mon, probes: &[Key], cov: &mut Cov, std: bool) -> Case {
    if std {
        history::<Std>(ops, mon, probes, cov)
    } else {
        history::<Hpt>(ops, mon, probes, cov)
    }
}

/// Two keys: every length of the common prefix, with every length of both tails
/// (short and longest ones only in the quick tier).
fn pairs(mon: Mon, thorough: bool) {
    let nibs: &[(u8, u8)] = if thorough {
        &[(0, 1), (15, 0), (8, 7)]
    } else {
        &[(0, 1), (15, 0)]
    };
    let mut cases: Vec<(Key, Key)> = vec![];
    for (p, pre) in [pattern(), vec![0; 64]].iter().flat_map(|p| (0..=64usize).map(move |n| (p, n))) {
        let max = 64 - pre;
        let lens: Vec<usize> = (0..=max).filter(|s| thorough || *s <= 3 || *s + 1 >= max).collect();
        for s1 in &lens {
            for s2 in &lens {
                if *s1 == 0 && *s2 == 0 {
                    continue;
                }
                for (a, b) in nibs {
                    let tail = |n: usize, x: u8| -> Key {
                        let mut t: Key = p[..n].to_vec();
                        if n > 0 {
                            t[0] = x;
                        }
                        t
                    };
                    let (k1, k2) = (cat(&p[..pre], &tail(*s1, *a)), cat(&p[..pre], &tail(*s2, *b)));
                    cases.push((k1, k2));
                }
            }
        }
    }
    cases.sort();
    cases.dedup();
    both("pairs", cases.len() as u64, |i, cov, std| {
        let (a, b) = &cases[i as usize];
        let pr = probes(&[a.clone(), b.clone()]);
        let ins = |k: &Key, l| Op::Ins(k.clone(), v(l, 1));
        let del = |k: &Key| Op::Del(k.clone());
        for (x, y) in [(a, b), (b, a)] {
            hist(&[ins(x, 3), ins(y, 40), ins(x, 33), del(x), del(x), ins(x, 2), del(y), del(x)], mon, &pr, cov, std)?;
        }
        Ok(())
    });
    sample(|| {
        let c = &cases[cases.len() / 2];
        format!("pairs: {} {}", key_str(&c.0), key_str(&c.1))
    });
}

/// Three 64-nibble keys branching at every pair of positions, in every order.
fn triples(mon: Mon, thorough: bool) {
    let p = pattern();
    let mut cases = vec![];
    for d1 in 0..64usize {
        for d2 in d1..64 {
            if thorough || d2 - d1 < 3 || d2 > 61 || d1 < 2 {
                cases.push((d1, d2));
            }
        }
    }
    const PERMS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    both("triples", cases.len() as u64, |i, cov, std| {
        let (d1, d2) = cases[i as usize];
        let ks = [p.clone(), flip(&p, d1, 1), if d1 == d2 { flip(&p, d2, 2) } else { flip(&p, d2, 1) }];
        let pr = probes(&ks);
        for ip in PERMS {
            for dp in PERMS {
                let mut ops: Vec<Op> = ip.iter().map(|j| Op::Ins(ks[*j].clone(), v(10 + 20 * j, 7))).collect();
                ops.extend(dp.iter().map(|j| Op::Del(ks[*j].clone())));
                hist(&ops, mon, &pr, cov, std)?;
            }
        }
        Ok(())
    });
}

/// Values of all lengths around the RLP boundaries, alone and in branches.
fn value_lengths(mon: Mon, thorough: bool) {
    let mut lens: Vec<usize> = (1..=70).collect();
    lens.extend(250..=260);
    if thorough {
        lens.extend(70..=250);
        lens.extend(65530..=65540);
    } else {
        lens.extend([65535, 65536]);
    }
    let firsts = [0u8, 1, 0x7f, 0x80, 0xff];
    let p = pattern();
    let klens: Vec<usize> = if thorough { (0..=64).collect() } else { vec![0, 1, 2, 3, 10, 31, 32, 53, 54, 55, 56, 63, 64] };
    let mut cases: Vec<(usize, u8)> = (0..=255).map(|f| (1, f)).collect();
    cases.extend(lens.iter().flat_map(|l| firsts.map(|f| (*l, f))).filter(|c| c.0 > 1));
    both("values", cases.len() as u64, |i, cov, std| {
        let (l, f) = cases[i as usize];
        for kl in &klens {
            if l > 1000 && *kl > 3 && *kl != 64 {
                continue;
            }
            let k = p[..*kl].to_vec();
            let other = if *kl == 0 { vec![5, 5] } else { flip(&k, *kl - 1, 3) };
            let pr = probes(&[k.clone(), other.clone()]);
            let mut ops = vec![
                Op::Ins(k.clone(), v(l, f)),
                Op::Ins(other.clone(), v(1, 9)),
                Op::Ins(other.clone(), v(l, f)),
            ];
            if *kl > 0 {
                // As the value of a branch, with and without other children.
                ops.push(Op::Ins(k[..*kl - 1].to_vec(), v(l, f)));
                ops.push(Op::Del(other.clone()));
            }
            ops.push(Op::Del(k.clone()));
            hist(&ops, mon, &pr, cov, std)?;
        }
        Ok(())
    });
}

/// Overwriting with every value that differs in one place from the old one.
fn overwrites(mon: Mon) {
    let near = |x: &[u8]| -> Vec<Vec<u8>> {
        let mut out = vec![x.to_vec(), [x, &[0]].concat(), [&[0], x].concat()];
        for i in [0, x.len() / 2, x.len() - 1] {
            for bit in [1, 0x80] {
                let mut y = x.to_vec();
                y[i] ^= bit;
                out.push(y);
            }
        }
        if x.len() > 1 {
            out.extend([x[1..].to_vec(), x[..x.len() - 1].to_vec()]);
        }
        out
    };
    let mut cases = vec![];
    for l in [1usize, 2, 20, 31, 32, 33, 40, 56] {
        let vals = near(&val(l, 5));
        for a in &vals {
            cases.extend(vals.iter().map(|b| (a.clone(), b.clone())));
        }
    }
    let d = |s: &[u8]| s.to_vec();
    // As a leaf alone, in a branch, below an extension, and as a branch value.
    let places: [(Key, Vec<Key>); 5] = [
        (d(&[1, 2]), vec![]),
        (d(&[]), vec![]),
        (d(&[1, 2]), vec![d(&[3]), d(&[15, 0])]),
        (d(&[1, 2, 3, 4]), vec![d(&[1, 2, 3, 5]), d(&[1, 2, 3])]),
        (d(&[1, 2]), vec![d(&[1, 2, 3]), d(&[1, 2, 15])]),
    ];
    both("overwrites", cases.len() as u64, |i, cov, std| {
        let (a, b) = &cases[i as usize];
        for (k, others) in &places {
            let ins = |x: &[u8]| Op::Ins(k.clone(), Ent::Val(x.to_vec()));
            let mut ops: Vec<Op> = others.iter().map(|k| Op::Ins(k.clone(), v(9, 1))).collect();
            ops.extend([ins(a), ins(b), ins(a), Op::Del(k.clone()), ins(b)]);
            hist(&ops, mon, &probes(&[k.clone()]), cov, std)?;
        }
        Ok(())
    });
}

/// Branches with every number of children (and an embedded/hashed mix) at
/// every depth parity, which also exercises nodes around 32 bytes.
fn fans(mon: Mon) {
    // Children 0..n filled in increasing, decreasing and interleaved order.
    both("fans", 17 * 3 * 4 * 3, |i, cov, std| {
        let i = i as usize;
        let (n, order, vl, pre) = (i % 17, i / 17 % 3, [1, 12, 31, 40][i / 51 % 4], i / 204);
        let pref: Key = vec![6; pre];
        let mut slots: Vec<u8> = (0..n as u8).collect();
        match order {
            1 => slots.reverse(),
            2 => slots = (0..n as u8).map(|x| (x * 7 + 3) % 16).collect(),
            _ => {}
        }
        let keys: Vec<Key> = slots.iter().map(|s| cat(&pref, &[*s, 4])).collect();
        let mut ops: Vec<Op> = keys.iter().map(|k| Op::Ins(k.clone(), v(vl, 3))).collect();
        ops.insert(n / 2, Op::Ins(pref.clone(), v(vl, 5)));
        for (j, k) in keys.iter().enumerate() {
            if j == n / 2 {
                ops.push(Op::Del(pref.clone()));
            }
            ops.push(Op::Del(k.clone()));
        }
        let mut all = keys.clone();
        all.push(pref.clone());
        hist(&ops, mon, &probes(&all), cov, std)
    });
}

/// Complete tries: all keys of 1..=3 nibbles.
fn complete(mon: Mon, thorough: bool) {
    let all: Vec<u8> = (0..16).collect();
    let max = if thorough { 3 } else { 2 };
    both("complete", max as u64 * 2, |i, cov, std| {
        let len = i as usize / 2 + 1;
        let mut keys = strings(&all, len, len);
        if i % 2 == 1 {
            let n = keys.len();
            keys = (0..n).map(|j| keys[(j * 7 + 5) % n].clone()).collect();
        }
        let check_every = if len == 3 { 61 } else { 1 };
        let pr = probes(&[vec![1, 2, 3], vec![0, 0], vec![15]]);
        let run = |ops: &[Op], cov: &mut Cov| -> Case {
            fn go<N: Trie>(ops: &[Op], mon: Mon, pr: &[Key], every: usize, cov: &mut Cov) -> Case {
                let mut t = N::default();
                let mut m = Map::new();
                for (i, op) in ops.iter().enumerate() {
                    let r = match apply(&mut t, op) {
                        Ok(r) => r,
                        Err(p) if mon.map => fail!("{} panics: {p} (step {i})", op.text()),
                        Err(_) => return Ok(()),
                    };
                    if let Exp::Done(want, m2) = expect(&m, op) {
                        if mon.map && r != want {
                            fail!("{} returns {r:?} expected {want:?} (step {i})", op.text());
                        }
                        m = m2;
                    }
                    cov.transitions += 1;
                    if i % every == 0 || i + 1 == ops.len() || i + 1 == ops.len() / 2 {
                        check_all(&t, &m, mon, pr).map_err(|w| format!("{} (step {i}: {})", w, op.text()))?;
                        cov.visit((N::NAME, &m));
                    }
                }
                cov.traces += 1;
                Ok(())
            }
            if std {
                go::<Std>(ops, mon, &pr, check_every, cov)
            } else {
                go::<Hpt>(ops, mon, &pr, check_every, cov)
            }
        };
        let mut ops: Vec<Op> = keys.iter().map(|k| Op::Ins(k.clone(), v(9, k[0]))).collect();
        ops.extend(keys.iter().map(|k| Op::Del(k.clone())));
        run(&ops, cov)
    });
}

/// Every trie that differs from `m` in one place: a byte of a value or hash,
/// a nibble of a path, the length of a path, the position of a child.
fn neighbours(m: &M) -> Vec<M> {
    let bytes = |v: &[u8]| -> Vec<Vec<u8>> {
        let mut out: Vec<Vec<u8>> = vec![];
        for i in 0..v.len() {
            for x in [1, 0x80] {
                let mut w = v.to_vec();
                w[i] ^= x;
                out.push(w);
            }
        }
        out
    };
    let value = |v: &[u8]| -> Vec<Vec<u8>> {
        let mut out = bytes(v);
        out.push([v, &[0]].concat());
        out.push([&[0], v].concat());
        if v.len() > 1 {
            out.push(v[1..].to_vec());
            out.push(v[..v.len() - 1].to_vec());
        }
        out
    };
    let path = |k: &Key, empty: bool| -> Vec<Key> {
        let mut out: Vec<Key> = vec![];
        for i in 0..k.len() {
            out.push(flip(k, i, 1));
            out.push(flip(k, i, 8));
        }
        if k.len() < 60 {
            for n in [0, 15] {
                out.push(cat(k, &[n]));
                out.push(cat(&[n], k));
            }
        }
        if k.len() > 1 || (empty && k.len() == 1) {
            out.push(k[1..].to_vec());
            out.push(k[..k.len() - 1].to_vec());
        }
        out
    };
    let hash = |h: &H| -> Vec<H> { bytes(h).into_iter().map(|b| b.try_into().unwrap()).collect() };
    match m {
        M::Empty => vec![],
        M::Hash(h) => hash(h).into_iter().map(M::Hash).collect(),
        M::Leaf(k, v) => {
            let mut out: Vec<M> = path(k, true).into_iter().map(|k| M::Leaf(k, v.clone())).collect();
            out.extend(value(v).into_iter().map(|v| M::Leaf(k.clone(), v)));
            out
        }
        M::Ext(k, c) => {
            let mut out: Vec<M> = path(k, false).into_iter().map(|k| M::Ext(k, c.clone())).collect();
            out.extend(neighbours(c).into_iter().map(|c| M::Ext(k.clone(), Box::new(c))));
            out
        }
        M::Branch(cs, v) => {
            let mut out: Vec<M> = vec![];
            for i in 0..16 {
                for c in neighbours(&cs[i]) {
                    let mut cs = cs.clone();
                    cs[i] = c;
                    out.push(M::Branch(cs, v.clone()));
                }
                for j in i + 1..16 {
                    if cs[i] != cs[j] {
                        let mut cs = cs.clone();
                        cs.swap(i, j);
                        out.push(M::Branch(cs, v.clone()));
                    }
                }
                if cs[i] != M::Empty {
                    let mut cs = cs.clone();
                    cs[i] = M::Empty;
                    out.push(M::Branch(cs, v.clone()));
                }
            }
            if v.is_empty() {
                out.push(M::Branch(cs.clone(), vec![0]));
            } else {
                out.extend(value(v).into_iter().chain([vec![]]).map(|v| M::Branch(cs.clone(), v)));
            }
            out
        }
    }
}

/// Equality of all pairs of tries of a pool, and of each with its neighbours,
/// with and without computed hashes.
fn equality(th: bool) {
    fn eq<N: Trie>(a: &N, b: &N, want: bool, am: &M, bm: &M, cov: &mut Cov) -> Case {
        cov.transitions += 1;
        let got = catch(|| (a == b, b == a, a != b)).map_err(|p| Fail(format!("comparing {am:?} with {bm:?} panics: {p}")))?;
        if got != (want, want, !want) {
            fail!("{}: (a == b, b == a, a != b) is {got:?}, expected equality {want}\n  a: {am:?}\n  b: {bm:?}", N::NAME);
        }
        cov.kind(if want { "equal" } else { "different" });
        Ok(())
    }
    fn warm<N: Trie>(m: &M) -> N {
        let t: N = make(m);
        warm_up(&t);
        t
    }
    for p in pools(1) {
        let l = p.tries(true, if th { 4000 } else { 1000 });
        let n = l.len() as u64;
        let prep = || -> Vec<(Hpt, Hpt, Std)> { l.iter().map(|m| (make(m), warm(m), make(m))).collect() };
        scope_with(&format!("equal-{}", p.name), n * n, prep, |i, ts, cov| {
            let (i, j) = ((i / n) as usize, (i % n) as usize);
            let (a, b) = (&ts[i], &ts[j]);
            let want = i == j || l[i] == l[j];
            if i == j {
                cov.visit(&l[i]);
                let again: Hpt = make(&l[i]);
                eq(&again, &a.0, true, &l[i], &l[i], cov)?;
                eq(&again, &a.1, true, &l[i], &l[i], cov)?;
                eq(&make::<Std>(&l[i]), &a.2, true, &l[i], &l[i], cov)?;
                cov.traces += 3;
            }
            eq(&a.0, &b.1, want, &l[i], &l[j], cov)?;
            eq(&a.1, &b.1, want, &l[i], &l[j], cov)?;
            eq(&a.0, &b.0, want, &l[i], &l[j], cov)?;
            eq(&a.2, &b.2, want, &l[i], &l[j], cov)
        });
    }
    for p in pools(2) {
        let l = p.tries(true, if th { 1500 } else { 250 });
        scope(&format!("neighbours-{}", p.name), l.len() as u64, |i, cov| {
            let m = &l[i as usize];
            let (cold, hot, std) = (make::<Hpt>(m), warm::<Hpt>(m), make::<Std>(m));
            cov.visit(m);
            for o in neighbours(m) {
                eq(&make::<Hpt>(&o), &cold, false, &o, m, cov)?;
                eq(&warm::<Hpt>(&o), &hot, false, &o, m, cov)?;
                eq(&make::<Std>(&o), &std, false, &o, m, cov)?;
            }
            cov.traces += 1;
            Ok(())
        });
    }
}

pub fn run_prop(mon: Mon) -> ! {
    let th = run().thorough;
    for sp in map_spaces(th) {
        closure::<Hpt>(&sp, mon);
        closure::<Std>(&sp, mon);
    }
    pairs(mon, th);
    triples(mon, th);
    value_lengths(mon, th);
    overwrites(mon);
    fans(mon);
    complete(mon, th);
    if mon.shape {
        equality(th);
    }
    if mon.iter {
        for sp in hash_spaces(th) {
            closure::<Hpt>(&sp, mon);
            closure::<Std>(&sp, mon);
        }
        crate::partial::iter_cuts(th);
        crate::odd::built();
    }
    crate::large::maps(mon);
    finish(&["large", "delete present", "delete absent", "overwrite", "insert new"]);
}
