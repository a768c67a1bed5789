//! C20-C22: debugging tools (diff, query, statistics).

use eth_trie_utils::{
    debug_tools::{
        diff::create_diff_between_tries,
        query::{get_path_from_query, DebugQueryParamsBuilder},
        stats::{get_trie_stats, get_trie_stats_with_name},
    },
};

use crate::{engine::*, model::*, real::*, spaces::*};

fn kind_name(m: &M) -> &'static str {
    match m {
        M::Empty => "Empty",
        M::Hash(_) => "Hash",
        M::Branch(..) => "Branch",
        M::Ext(..) => "Extension",
        M::Leaf(..) => "Leaf",
    }
}

fn hexkey(k: &[u8]) -> String {
    format!("0x{}", k.iter().map(|n| char::from_digit(*n as u32, 16).unwrap()).collect::<String>())
}

// ------------------------------------------------------------------------ C20

/// A trie with the hashes of all its nodes.
pub struct Tree {
    m: M,
    h: H,
    kids: Vec<Tree>,
}

fn tree(m: &M) -> Tree {
    fn rec(m: &M) -> (Tree, M) {
        let (kids, short): (Vec<Tree>, Vec<M>) = match m {
            M::Branch(cs, _) => cs.iter().map(rec).unzip(),
            M::Ext(_, c) => [rec(c)].into_iter().unzip(),
            _ => (vec![], vec![]),
        };
        let s = shallow(m, &short);
        (Tree { m: s.clone(), h: s.root(), kids }, shrink(s))
    }
    rec(m).0
}

/// A trie, the real one, and its hashes.
pub fn prepare(m: &M) -> (M, Hpt, Tree) {
    (m.clone(), make::<Hpt>(m), tree(m))
}

#[derive(Clone)]
struct Point<'a> {
    structural: bool,
    key: Key,
    depth: usize,
    path: Vec<String>,
    a: &'a Tree,
    b: &'a Tree,
}

fn piece(m: &M) -> Key {
    match m {
        M::Ext(n, _) | M::Leaf(n, _) => n.clone(),
        _ => vec![],
    }
}

/// All points of divergence in key order.
fn points<'a>(a: &'a Tree, b: &'a Tree, key: &Key, path: &[String], out: &mut Vec<Point<'a>>) {
    if a.h == b.h {
        return;
    }
    let p = |structural| Point { structural, key: key.clone(), depth: path.len(), path: path.to_vec(), a, b };
    if kind_name(&a.m) != kind_name(&b.m) || piece(&a.m) != piece(&b.m) {
        out.push(p(true));
        return;
    }
    let n = out.len();
    match &a.m {
        M::Branch(..) => {
            for i in 0..16 {
                let seg = format!("Branch({i})");
                points(&a.kids[i], &b.kids[i], &cat(key, &[i as u8]), &[path, &[seg]].concat(), out);
            }
        }
        M::Ext(nb, _) => {
            let seg = format!("Extension({})", hexkey(nb));
            points(&a.kids[0], &b.kids[0], &cat(key, nb), &[path, &[seg]].concat(), out);
        }
        _ => {}
    }
    if out.len() == n {
        out.push(p(false));
    }
}

fn info(t: &Tree, key: &Key) -> String {
    let value = match &t.m {
        M::Branch(_, v) | M::Leaf(_, v) => format!("0x{}", hex(v)),
        _ => "N/A".into(),
    };
    format!("(key: {} Value: {value}, Node type: {} Trie hash: {})", hexkey(&cat(key, &piece(&t.m))), kind_name(&t.m), hex(&t.h))
}

pub fn diff_pair(a: &(M, Hpt, Tree), b: &(M, Hpt, Tree), cov: &mut Cov) -> Case {
    let err = |w: String| {
        Fail(format!("diff of {} and {}: {w}", map_str(&a.0.entries().into_iter().collect()), map_str(&b.0.entries().into_iter().collect())))
    };
    let d = catch(|| create_diff_between_tries(&a.1, &b.1)).map_err(|p| err(format!("panics: {p}")))?;
    cov.transitions += 1;
    let mut ps = vec![];
    points(&a.2, &b.2, &vec![], &[], &mut ps);
    // Structural first, then the longest key, then the first.
    let mut best: Option<&Point> = None;
    for p in &ps {
        if best.map_or(true, |q| (p.structural, p.key.len()) > (q.structural, q.key.len())) {
            best = Some(p);
        }
    }
    match (&d.latest_diff_res, best) {
        (None, None) => {
            cov.kind("no difference");
            Ok(())
        }
        (Some(g), None) => Err(err(format!("reports {g} although the root hashes are equal"))),
        (None, Some(w)) => Err(err(format!("reports nothing, expected a difference at {}", hexkey(&w.key)))),
        (Some(g), Some(w)) => {
            cov.kind(if w.structural { "structural difference" } else { "value or hash difference" });
            cov.traces += 1;
            let got = (unnib(&g.key).map_err(err)?, g.depth, g.path.to_string(), g.a_info.to_string(), g.b_info.to_string());
            let want = (w.key.clone(), w.depth, w.path.join(" --> "), info(w.a, &w.key), info(w.b, &w.key));
            if got != want {
                return Err(err(format!("reports {got:?}\n  expected {want:?}")));
            }
            let s = catch(|| d.to_string()).map_err(|p| err(format!("printing panics: {p}")))?;
            for part in [&want.2, &want.3, &want.4, &hexkey(&want.0), &want.1.to_string()] {
                if !s.contains(part.as_str()) {
                    return Err(err(format!("the printed diff {s:?} lacks {part:?}")));
                }
            }
            Ok(())
        }
    }
}

/// Tries with the same branches at `levels` depths, where independently at
/// each depth one child is absent, one value, another value, or a hash node.
fn steep(step: &[u8], levels: usize, options: u64) -> Vec<M> {
    (0..options.pow(levels as u32)).map(|i| steep_one(step, levels, options, i)).collect()
}

fn steep_one(step: &[u8], levels: usize, options: u64, mut i: u64) -> M {
    let mut m = Map::new();
    let mut p = vec![];
    for _ in 0..levels {
        m.insert(cat(&p, &[14]), v(40, 1));
        m.insert(cat(&p, &[15]), v(2, 1));
        match i % options {
            0 => None,
            1 => m.insert(cat(&p, &[0]), v(40, 2)),
            2 => m.insert(cat(&p, &[0]), v(3, 2)),
            _ => m.insert(cat(&p, &[0]), Ent::Hash(branch_hash(1))),
        };
        i /= options;
        p.extend(step);
    }
    build(&m)
}

/// The last levels of a steep trie differ, and so do leaves with the long common
/// prefix `far`.
fn uneven(step: &[u8], levels: usize, far: &[u8], th: bool) -> Vec<M> {
    let mut out = vec![];
    for i in 0..3u64.pow(if th { 4 } else { 3 }) {
        for j in 0..4 {
            let mut m: Map = steep_one(step, levels, 3, i * 3u64.pow(levels as u32 - if th { 4 } else { 3 })).entries().into_iter().collect();
            m.insert(cat(far, &[1]), v(40, 3));
            m.insert(cat(far, &[2]), v(2, 3));
            match j {
                0 => None,
                1 => m.insert(cat(far, &[0]), v(40, 2)),
                2 => m.insert(cat(far, &[0]), v(3, 2)),
                _ => m.insert(cat(far, &[0]), Ent::Hash(branch_hash(1))),
            };
            out.push(build(&m));
        }
    }
    out
}

pub fn c20() -> ! {
    let th = run().thorough;
    let prep = |l: &[M]| -> Vec<(M, Hpt, Tree)> { l.iter().map(|m| (m.clone(), make::<Hpt>(m), tree(m))).collect() };
    let pairs = |name: &str, l: &[M]| {
        let n = l.len() as u64;
        scope_with(name, n * n, || prep(l), |i, l, cov| {
            let (a, b) = (&l[(i / n) as usize], &l[(i % n) as usize]);
            if i % n == 0 {
                cov.states += 1;
                sample(|| format!("diff of {} with each of {n} tries", map_str(&a.0.entries().into_iter().collect())));
            }
            diff_pair(a, b, cov)
        });
    };
    // A long key at little depth beside shorter keys at great depth.
    for (name, step, side) in [
        ("uneven-before", vec![3], cat(&[2], &[7; 12])),
        ("uneven-after", vec![3], cat(&[13], &[7; 12])),
        ("uneven-ext-before", vec![3, 2], cat(&[2], &[7; 30])),
        ("uneven-ext-after", vec![3, 2], cat(&[13], &[7; 30])),
        ("uneven-close", vec![3], vec![2, 7, 7, 7, 7]),
    ] {
        pairs(name, &uneven(&step, 6, &side, th));
    }
    for (name, step) in [("steep", vec![1]), ("steep-ext", vec![1, 2, 3])] {
        pairs(name, &steep(&step, if th { 5 } else { 4 }, 4));
        pairs(&format!("{name}-deep"), &steep(&step, if th { 6 } else { 5 }, 3));
    }
    for p in pools(1) {
        let l = p.tries(true, if th { 5500 } else { 900 });
        pairs(&format!("cuts-{}", p.name), &l);
    }
    for p in pools(2) {
        let l = p.tries(false, if th { 2200 } else { 650 });
        pairs(&format!("full-{}", p.name), &l);
    }
    // The small tries of all pools against each other.
    let l: Vec<M> = pools(1).iter().flat_map(|p| p.tries(true, if th { 500 } else { 150 })).collect();
    pairs("across", &l);
    crate::large::c20();
    crate::odd::diffs();
    finish(&["large", "opaque", "no difference", "structural difference", "value or hash difference"]);
}

// ------------------------------------------------------------------------ C21

/// The expected text of a query.
fn query_text(m: &M, k: &Key, pieces: bool, types: bool, extra: bool) -> (String, bool) {
    let mut lines: Vec<String> = vec![];
    let (mut cur, mut rest) = (m, &k[..]);
    let found;
    loop {
        let (key, info, next): (Option<Key>, Option<String>, Option<(&M, &[u8])>) = match cur {
            M::Empty => (None, None, None),
            M::Hash(h) => (None, Some(format!("Hash: {}", hex(h))), None),
            M::Branch(cs, _) => {
                let mask = (0..16).fold(0u16, |a, i| if cs[i] == M::Empty { a } else { a | 1 << i });
                let info = format!("mask: 0b{mask:016b} (Num Children: {})", mask.count_ones());
                match rest.split_first() {
                    Some((n, r)) => (Some(vec![*n]), Some(info), Some((&cs[*n as usize], r))),
                    None => (None, Some(info), None),
                }
            }
            M::Ext(n, c) => (Some(n.clone()), None, rest.strip_prefix(&n[..]).map(|r| (&**c, r))),
            M::Leaf(n, v) => (Some(n.clone()), Some(format!("Leaf Value: {}", hex(v))), None),
        };
        let mut parts = vec![];
        if let (true, Some(k)) = (pieces, key) {
            parts.push(format!("key: {}", hexkey(&k)));
        }
        if let (true, Some(i)) = (extra, info) {
            parts.push(format!("Extra Seg Info: {i}"));
        }
        lines.push(format!("{}({})", if types { kind_name(cur) } else { "" }, parts.join(", ")));
        match next {
            Some((n, r)) => {
                cur = n;
                rest = r;
            }
            None => {
                found = match cur {
                    M::Empty | M::Ext(..) => false,
                    M::Hash(_) => rest.is_empty(),
                    M::Branch(_, v) => !v.is_empty(),
                    M::Leaf(n, _) => rest == &n[..],
                };
                break;
            }
        }
    }
    let s = format!("Query Result {{\nQueried Key: {}\nNode found: {found}\n}}\nQuery path:\n{}", hexkey(k), lines.join("\nV\n"));
    (s, found)
}

pub fn query_case<N: Trie>(m: &M, keys: &[Key], cov: &mut Cov) -> Case {
    let t: N = make(m);
    let map: Map = m.entries().into_iter().collect();
    for k in keys {
        for o in 0..8 {
            let (pieces, types, extra) = (o & 1 == 0, o & 2 == 0, o & 4 != 0);
            let (want, found) = query_text(m, k, pieces, types, extra);
            let err = |w: String| Fail(format!("query of {} in {} {} (options {pieces} {types} {extra}): {w}", key_str(k), N::NAME, map_str(&map)));
            if found != map.contains_key(k) {
                return Err(err("the reference model is inconsistent".into()));
            }
            let got = catch(|| {
                if o == 0 {
                    return get_path_from_query::<N, _>(&t, nib(k)).to_string();
                }
                let q = DebugQueryParamsBuilder::default().print_key_pieces(pieces).print_node_type(types).print_node_specific_values(extra);
                get_path_from_query::<N, _>(&t, q.build(nib(k))).to_string()
            })
            .map_err(|p| err(format!("panics: {p}")))?;
            cov.transitions += 1;
            // A separator in front of the only part is a matter of taste.
            let norm = |s: &str| s.replace("(, ", "(").trim_end().to_string();
            if norm(&got) != norm(&want) {
                return Err(err(format!("reports {got:?}\n  expected {want:?}")));
            }
            cov.kind(if found { "found" } else { "not found" });
        }
        cov.traces += 1;
    }
    cov.states += 1;
    Ok(())
}

pub fn c21() -> ! {
    let th = run().thorough;
    for p in pools(2) {
        let keys = probes(&p.keys);
        let l = p.tries(true, if th { usize::MAX } else { 9000 });
        scope(&format!("tries-{}", p.name), l.len() as u64, |i, cov| {
            let m = &l[i as usize];
            sample(|| format!("{} queried for {} keys with 8 option sets", map_str(&m.entries().into_iter().collect()), keys.len()));
            query_case::<Hpt>(m, &keys, cov)?;
            if m.entries().len() < 3 {
                query_case::<Std>(m, &keys, cov)?;
            }
            Ok(())
        });
    }
    crate::large::c21();
    crate::odd::queries();
    finish(&["large", "opaque", "found", "not found"]);
}

// ------------------------------------------------------------------------ C22

#[derive(Clone, Debug, Default)]
struct Counts {
    /// Empty, hash, branch, extension, leaf.
    n: [u64; 5],
    lowest: u64,
    leaf_sum: u64,
    hash_sum: u64,
}

fn count(m: &M, depth: u64, c: &mut Counts) {
    match m {
        M::Empty => c.n[0] += 1,
        M::Hash(_) => {
            c.n[1] += 1;
            c.hash_sum += depth;
            c.lowest = c.lowest.max(depth);
        }
        M::Branch(cs, _) => {
            c.n[2] += 1;
            cs.iter().for_each(|x| count(x, depth + 1, c));
        }
        M::Ext(_, x) => {
            c.n[3] += 1;
            count(x, depth + 1, c);
        }
        M::Leaf(..) => {
            c.n[4] += 1;
            c.leaf_sum += depth;
            c.lowest = c.lowest.max(depth);
        }
    }
}

const KINDS: [&str; 5] = ["Empty", "Hash", "Branch", "Extension", "Leaf"];

/// The text after `label: ` on the line of that label.
fn field<'a>(s: &'a str, label: &str) -> Result<&'a str, String> {
    let l: Vec<&str> = s
        .lines()
        .filter_map(|l| {
            let l = l.rsplit_once("comparison: ").map_or(l, |x| x.1);
            l.strip_prefix(label)?.strip_prefix(": ")
        })
        .collect();
    match l[..] {
        [x] => Ok(x),
        _ => Err(format!("no single line {label:?} in {s:?}")),
    }
}

/// A printed number with `digits` decimals.
fn near(got: &str, want: f64, digits: i32) -> bool {
    match got.parse::<f64>() {
        Ok(g) => (g - want).abs() <= 0.5001 * 10f64.powi(-digits) + want.abs() * 1e-5,
        Err(_) => false,
    }
}

fn check_stats(s: &str, c: &Counts) -> Result<(), String> {
    let total: u64 = c.n.iter().sum();
    for (i, k) in KINDS.iter().enumerate() {
        let f = field(s, k)?;
        let (n, p) = f.split_once(" (").ok_or(format!("{k}: {f}"))?;
        if n != c.n[i].to_string() {
            return Err(format!("{k} count is {n}, expected {}", c.n[i]));
        }
        if !near(p.trim_end_matches("%)"), 100.0 * c.n[i] as f64 / total as f64, 2) {
            return Err(format!("{k} percentage is {p}, {} of {total}", c.n[i]));
        }
    }
    if field(s, "Lowest depth")? != c.lowest.to_string() {
        return Err(format!("lowest depth is {}, expected {}", field(s, "Lowest depth")?, c.lowest));
    }
    for (l, sum, n) in [("Average leaf depth", c.leaf_sum, c.n[4]), ("Average hash depth", c.hash_sum, c.n[1])] {
        let f = field(s, l)?;
        // The average of nothing is not claimed to be any particular text.
        if n > 0 && !near(f, sum as f64 / n as f64, 3) {
            return Err(format!("{l} is {f}, expected {sum} / {n}"));
        }
    }
    Ok(())
}

fn check_compare(s: &str, a: &Counts, b: &Counts) -> Result<(), String> {
    let tot = |c: &Counts| c.n.iter().sum::<u64>() as f64;
    let avg = |s: u64, n: u64| if n > 0 { Some(s as f64 / n as f64) } else { None };
    let rows: Vec<(&str, Option<f64>, Option<f64>)> = vec![
        ("Total nodes", Some(tot(a)), Some(tot(b))),
        ("Non-empty", Some(tot(a) - a.n[0] as f64), Some(tot(b) - b.n[0] as f64)),
        ("Total empty", Some(a.n[0] as f64), Some(b.n[0] as f64)),
        ("Total hash", Some(a.n[1] as f64), Some(b.n[1] as f64)),
        ("Total branch", Some(a.n[2] as f64), Some(b.n[2] as f64)),
        ("Total extension", Some(a.n[3] as f64), Some(b.n[3] as f64)),
        ("Total leaf", Some(a.n[4] as f64), Some(b.n[4] as f64)),
        ("Lowest depth", Some(a.lowest as f64), Some(b.lowest as f64)),
        ("Avg leaf depth", avg(a.leaf_sum, a.n[4]), avg(b.leaf_sum, b.n[4])),
        ("Avg hash depth", avg(a.hash_sum, a.n[1]), avg(b.hash_sum, b.n[1])),
    ];
    for (l, x, y) in rows {
        let f = field(s, l)?;
        let bad = || format!("{l} is {f}, expected {x:?} / {y:?}");
        let (p, q) = f.split_once(" / ").ok_or_else(bad)?;
        let (q, r) = q.split_once(" (").ok_or_else(bad)?;
        if x.is_some_and(|x| !near(p, x, 3)) || y.is_some_and(|y| !near(q, y, 3)) {
            return Err(bad());
        }
        if let (Some(x), Some(y)) = (x, y) {
            if y != 0.0 && !near(r.trim_end_matches("%)"), 100.0 * x / y, 3) {
                return Err(bad());
            }
        }
    }
    Ok(())
}

pub fn stats_of<N: Trie>(m: &M, cov: &mut Cov) -> Case {
    let t: N = make(m);
    let mut c = Counts::default();
    count(m, 0, &mut c);
    let err = |w: String| Fail(format!("{} {}: {w}", N::NAME, map_str(&m.entries().into_iter().collect())));
    let s = catch(|| get_trie_stats(&t).to_string()).map_err(|p| err(format!("panics: {p}")))?;
    check_stats(&s, &c).map_err(err)?;
    let s = catch(|| get_trie_stats_with_name(&t, "some trie".into()).to_string()).map_err(|p| err(format!("panics: {p}")))?;
    check_stats(&s, &c).map_err(err)?;
    if !s.contains("some trie") {
        return Err(err(format!("the name is not in {s:?}")));
    }
    cov.transitions += 2;
    cov.states += 1;
    cov.kind("stats");
    Ok(())
}

/// The comparison of the statistics of two tries.
pub fn compare_pair(a: &M, b: &M, cov: &mut Cov) -> Case {
    let c = |m: &M| {
        let mut c = Counts::default();
        count(m, 0, &mut c);
        c
    };
    let (x, y): (Hpt, Hpt) = (make(a), make(b));
    let s = catch(|| get_trie_stats(&x).compare(&get_trie_stats(&y)).to_string());
    let s = s.map_err(|p| Fail(format!("the comparison panics: {p}")))?;
    cov.transitions += 1;
    cov.traces += 1;
    cov.kind("comparison");
    check_compare(&s, &c(a), &c(b)).map_err(Fail)
}

pub fn c22() -> ! {
    let th = run().thorough;
    for p in pools(2) {
        let l = p.tries(true, usize::MAX);
        scope(&format!("tries-{}", p.name), l.len() as u64, |i, cov| {
            let m = &l[i as usize];
            sample(|| format!("statistics of {}", map_str(&m.entries().into_iter().collect())));
            stats_of::<Hpt>(m, cov)?;
            stats_of::<Std>(m, cov)
        });
    }
    // Wide and deep tries.
    scope("big", 64, |i, cov| {
        let p = pattern();
        let n = i as usize + 1;
        let chain: Map = (1..=n).map(|l| (p[..l].to_vec(), v(40, 1))).collect();
        let fan: Map = (0..n).flat_map(|a| (0..16u8).map(move |b| (vec![a as u8 % 16, b, (a / 16) as u8], v(40, 1)))).collect();
        for m in [chain, fan] {
            let m = build(&m);
            stats_of::<Hpt>(&m, cov)?;
            stats_of::<Std>(&m, cov)?;
        }
        Ok(())
    });
    for p in pools(1) {
        let l = p.tries(true, if th { 5500 } else { 900 });
        let n = l.len() as u64;
        let prep = || -> Vec<(M, Counts, Hpt)> {
            let one = |m: &M| {
                let mut c = Counts::default();
                count(m, 0, &mut c);
                (m.clone(), c, make(m))
            };
            l.iter().map(one).collect()
        };
        scope_with(&format!("pairs-{}", p.name), n * n, prep, |i, l, cov| {
            let (a, b) = (&l[(i / n) as usize], &l[(i % n) as usize]);
            let s = catch(|| get_trie_stats(&a.2).compare(&get_trie_stats(&b.2)).to_string());
            let err = |w: String| {
                Fail(format!("comparison of {} and {}: {w}", map_str(&a.0.entries().into_iter().collect()), map_str(&b.0.entries().into_iter().collect())))
            };
            let s = s.map_err(|p| err(format!("panics: {p}")))?;
            cov.transitions += 1;
            cov.traces += 1;
            cov.kind("comparison");
            check_compare(&s, &a.1, &b.1).map_err(err)
        });
    }
    crate::large::c22();
    crate::odd::statistics();
    finish(&["large", "opaque", "stats", "comparison"]);
}
