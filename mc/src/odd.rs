//! Hash nodes are opaque: nothing may depend on the bytes of the hash they
//! carry. Small partial tries with hashes that could be taken for something else.

use crate::{debug, engine::*, mapcheck::*, misc, model::*, partial, real::*, spaces::*};

fn hashes() -> Vec<H> {
    let one = |at: usize, b: u8, rest: u8| {
        let mut h = [rest; 32];
        h[at] = b;
        h
    };
    let mut usual = branch_hash(1);
    usual[0] = 0;
    let mut out = vec![
        [0; 32],
        [0xff; 32],
        one(31, 1, 0),
        one(0, 1, 0),
        [0x80; 32],
        one(0, 0, 0xff),
        one(31, 0, 0xff),
        keccak256(&[0x80]),
        keccak256(&[]),
        usual,
        branch_hash(1),
    ];
    usual[1] = 0;
    usual[31] = 0;
    out.push(usual);
    out
}

/// Where hash nodes are, and the values next to them.
fn shapes() -> Vec<(Vec<Key>, Vec<Key>)> {
    let d = |ss: &[&str]| -> Vec<Key> { ss.iter().map(|s| s.bytes().map(|b| b - b'0').collect()).collect() };
    vec![
        (d(&[""]), d(&[])),
        (d(&["1"]), d(&[])),
        (d(&["00"]), d(&[])),
        (d(&["12345678"]), d(&[])),
        (d(&["0"]), d(&["1"])),
        (d(&["1"]), d(&["", "2"])),
        (d(&["12"]), d(&["1", "13"])),
        (d(&["120"]), d(&["34"])),
        (d(&["0", "1"]), d(&[])),
        (d(&["10", "11"]), d(&["1"])),
        (d(&["00", "10"]), d(&["2"])),
        (d(&["000", "1"]), d(&[])),
    ]
}

/// The shapes with every choice of hashes.
pub fn tries() -> Vec<Map> {
    let hs = hashes();
    let mut out = vec![];
    for (at, vals) in shapes() {
        for len in [1usize, 40] {
            let rest: Map = vals.iter().map(|k| (k.clone(), v(len, 7))).collect();
            for i in 0..hs.len().pow(at.len() as u32) {
                let mut m = rest.clone();
                for (j, k) in at.iter().enumerate() {
                    m.insert(k.clone(), Ent::Hash(hs[i / hs.len().pow(j as u32) % hs.len()]));
                }
                out.push(m);
            }
            if vals.is_empty() {
                break;
            }
        }
    }
    out
}

fn each(f: impl Fn(&Map, &M, &mut Cov) -> Case + Sync) {
    let ts = tries();
    scope("opaque", ts.len() as u64, |i, cov| {
        let m = &ts[i as usize];
        cov.states += 1;
        cov.kind("opaque");
        f(m, &build(m), cov)
    });
}

/// Built by inserts in both orders and directly: entries, structure, root hash.
pub fn built() {
    fn one<N: Trie>(m: &Map, t: &N, pr: &[Key], how: &str) -> Case {
        let err = |w: String| Fail(format!("{} {how}: {w}; {}", N::NAME, map_str(m)));
        check_hash(t, &build(m).root()).map_err(err)?;
        check_gets(t, m, pr).map_err(err)?;
        check_iter(t, m).map_err(err)
    }
    fn orders<N: Trie>(m: &Map, fm: &M, cov: &mut Cov) -> Case {
        let pr = probes(&m.keys().cloned().collect::<Vec<_>>());
        one(m, &make::<N>(fm), &pr, "put in place directly")?;
        for rev in [false, true] {
            let mut es: Vec<_> = m.iter().collect();
            if rev {
                es.reverse();
            }
            let mut t = N::default();
            for (k, e) in es {
                let op = Op::Ins(k.clone(), e.clone());
                apply(&mut t, &op).map_err(|p| Fail(format!("{}: {} panics: {p}; {}", N::NAME, op.text(), map_str(m))))?;
                cov.transitions += 1;
            }
            let read = read::<N>(&t).map_err(Fail)?;
            if read != *fm {
                return Err(Fail(format!("{}: inserting gives {read:?}, expected {fm:?}", N::NAME)));
            }
            one(m, &t, &pr, "by inserts")?;
            cov.traces += 1;
        }
        Ok(())
    }
    each(|m, fm, cov| {
        orders::<Hpt>(m, fm, cov)?;
        orders::<Std>(m, fm, cov)
    });
}

pub fn subsets(minimal: bool) {
    each(|m, fm, cov| {
        let (hs, root) = (partial::node_hashes(fm), fm.root());
        let (t, s) = (make::<Hpt>(fm), make::<Std>(fm));
        for ks in std::iter::once(vec![]).chain(m.keys().map(|k| vec![k.clone()])).chain([m.keys().cloned().collect()]) {
            partial::subset_case(&t, fm, m, &hs, &root, &ks, minimal, cov)?;
            partial::subset_case(&s, fm, m, &hs, &root, &ks, minimal, cov)?;
        }
        Ok(())
    });
}

/// Inserts next to the hash nodes, and deletes of the values again.
pub fn updates() {
    fn one<N: Trie>(m: &Map, fm: &M, cov: &mut Cov) -> Case {
        let keys: Vec<Key> = m.keys().cloned().collect();
        for k in probes(&keys) {
            if hits_hash(m, &k) || (m.range(k.clone()..).next().is_some_and(|(x, e)| *x == k && matches!(e, Ent::Hash(_)))) {
                continue;
            }
            let mut m2 = m.clone();
            m2.insert(k.clone(), v(35, 3));
            let mut t = make::<N>(fm);
            warm_up(&t);
            let err = |w: String| Fail(format!("{}: insert {}: {w}; {}", N::NAME, key_str(&k), map_str(m)));
            apply(&mut t, &Op::Ins(k.clone(), v(35, 3))).map_err(|p| err(format!("panics: {p}")))?;
            check_hash(&t, &build(&m2).root()).map_err(err)?;
            check_iter(&t, &m2).map_err(err)?;
            cov.transitions += 1;
            cov.traces += 1;
        }
        Ok(())
    }
    each(|m, fm, cov| {
        one::<Hpt>(m, fm, cov)?;
        one::<Std>(m, fm, cov)
    });
}

pub fn lookups() {
    each(|m, fm, cov| {
        let pr = probes(&m.keys().cloned().collect::<Vec<_>>());
        let (t, s) = (make::<Hpt>(fm), make::<Std>(fm));
        partial::check_lookups(&t, m, &pr, cov).map_err(|w| Fail(format!("HashedPartialTrie: {w}; {}", map_str(m))))?;
        partial::check_lookups(&s, m, &pr, cov).map_err(|w| Fail(format!("StandardTrie: {w}; {}", map_str(m))))?;
        for k in pr.iter().filter(|k| hits_hash(m, k)) {
            for op in [Op::Ins(k.clone(), v(40, 5)), Op::Del(k.clone())] {
                cov.transitions += 2;
                if apply(&mut t.clone(), &op).is_ok() || apply(&mut s.clone(), &op).is_ok() {
                    return Err(Fail(format!("{} does not panic; {}", op.text(), map_str(m))));
                }
                cov.kind("refused");
            }
        }
        Ok(())
    });
}

pub fn serialised() {
    each(|_, fm, cov| {
        for warm in 0..4 {
            misc::round_trip::<Hpt>(fm, warm, &[], cov)?;
        }
        misc::round_trip::<Std>(fm, 0, &[], cov)
    });
}

pub fn diffs() {
    let by_shape: Vec<Vec<(M, Map)>> = {
        let mut groups: std::collections::BTreeMap<Vec<Key>, Vec<(M, Map)>> = Default::default();
        for m in tries() {
            groups.entry(m.keys().cloned().collect()).or_default().push((build(&m), m));
        }
        groups.into_values().collect()
    };
    let all: Vec<(usize, usize)> = by_shape.iter().enumerate().flat_map(|(g, l)| (0..l.len()).map(move |i| (g, i))).collect();
    scope("opaque", all.len() as u64, |i, cov| {
        let (g, i) = all[i as usize];
        let a = debug::prepare(&by_shape[g][i].0);
        cov.kind("opaque");
        cov.states += 1;
        let mut others: Vec<&M> = by_shape[g].iter().map(|x| &x.0).collect();
        others.push(&M::Empty);
        // And the tries without one of the hash nodes, or with a value there.
        let m = &by_shape[g][i].1;
        let mut less = vec![];
        for k in m.keys() {
            let mut x = m.clone();
            x.remove(k);
            less.push(build(&x));
            x.insert(k.clone(), v(40, 1));
            less.push(build(&x));
        }
        others.extend(less.iter());
        for b in others {
            let b = debug::prepare(b);
            debug::diff_pair(&a, &b, cov)?;
            debug::diff_pair(&b, &a, cov)?;
        }
        Ok(())
    });
}

pub fn statistics() {
    each(|_, fm, cov| {
        debug::stats_of::<Hpt>(fm, cov)?;
        debug::stats_of::<Std>(fm, cov)
    });
}

pub fn queries() {
    each(|m, fm, cov| {
        let pr = probes(&m.keys().cloned().collect::<Vec<_>>());
        debug::query_case::<Hpt>(fm, &pr, cov)?;
        debug::query_case::<Std>(fm, &pr, cov)
    });
}
