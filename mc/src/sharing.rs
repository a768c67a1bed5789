//! C04, C05: all operation sequences over tries that share nodes and caches.
//! C13: bulk insertion.

use std::{
    ops::{Deref, DerefMut},
    sync::Arc,
};

use eth_trie_utils::{
    debug_tools::diff::create_diff_between_tries,
    nibbles::Nibbles,
    partial_trie::{Node, PartialTrie, TrieNodeIntern, WrappedNode},
    trie_ops::ValOrHash,
    trie_subsets::{create_trie_subset, create_trie_subsets},
};

use crate::{engine::*, mapcheck::*, model::*, real::*, spaces::*};

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    Ins(u8),
    Del(u8),
    Extend,
    ExtendPanic,
    Hash,
    HashIntern,
    /// Replaces the other trie by a subset of this one for no / one key.
    Sub0,
    Sub1,
    /// Creates and drops a batch of subsets.
    Subs,
    /// Replaces the other trie.
    Clone,
    TakeChild,
    Embed,
    /// Direct mutation through the mutable node access.
    Mut,
    MutChild,
    /// Replaces the whole node.
    Put,
    Refused,
    Diff,
    /// Keeps references to the children.
    Hold,
}

use A::*;

const ALL: &[A] = &[
    Ins(0), Ins(1), Ins(2), Del(0), Del(1), Extend, ExtendPanic, Hash, HashIntern, Sub0, Sub1, Subs, Clone, TakeChild,
    Embed, Mut, MutChild, Put, Refused, Diff, Hold,
];
const CORE: &[A] = &[Ins(0), Ins(1), Del(0), Extend, Hash, Sub1, Clone, TakeChild, Embed, Mut, MutChild];

struct Init {
    name: &'static str,
    map: Map,
    keys: [Key; 3],
    refused: Option<Key>,
}

fn d(s: &str) -> Key {
    s.chars().map(|c| c.to_digit(16).unwrap() as u8).collect()
}

fn inits() -> Vec<Init> {
    let m = |e: &[(&str, Ent)]| -> Map { e.iter().map(|(k, v)| (d(k), v.clone())).collect() };
    vec![
        Init {
            name: "branches",
            map: m(&[("12", v(40, 1)), ("13", v(40, 2)), ("2", v(40, 3))]),
            keys: [d("12"), d("13"), d("134")],
            refused: None,
        },
        Init {
            name: "hash-node",
            map: m(&[("120", v(40, 1)), ("121", v(33, 2)), ("3", Ent::Hash(branch_hash(1)))]),
            keys: [d("120"), d("12"), d("2")],
            refused: Some(d("35")),
        },
        Init { name: "small", map: m(&[("12", v(1, 1)), ("13", v(2, 2))]), keys: [d("12"), d("13"), d("")], refused: None },
        Init { name: "leaf", map: m(&[("1234", v(50, 1))]), keys: [d("1234"), d("12"), d("5")], refused: None },
        Init {
            name: "extension",
            map: m(&[("1230", v(40, 1)), ("123f", v(1, 2)), ("123", v(35, 3))]),
            keys: [d("1230"), d("123"), d("12")],
            refused: None,
        },
        // Nodes of exactly 31 bytes (the largest embedded ones): a branch, an
        // extension and a leaf; and next to them the same with 32 bytes.
        Init {
            name: "31-bytes",
            map: m(&[
                ("10", v(4, 1)), ("11", v(5, 2)),
                ("250", v(3, 3)), ("251", v(4, 4)),
                ("3", v(28, 5)),
            ]),
            keys: [d("10"), d("6"), d("3")],
            refused: None,
        },
        Init {
            name: "32-bytes",
            map: m(&[
                ("10", v(5, 1)), ("11", v(5, 2)),
                ("250", v(4, 3)), ("251", v(4, 4)),
                ("3", v(29, 5)),
            ]),
            keys: [d("250"), d("6"), d("3")],
            refused: None,
        },
    ]
}

struct World {
    slots: [Hpt; 2],
    held: Vec<(WrappedNode<Hpt>, M)>,
}

fn empty(c: &WrappedNode<Hpt>) -> bool {
    let n: &Node<Hpt> = c;
    matches!(n, Node::Empty)
}

fn first_child(n: &Node<Hpt>) -> Option<WrappedNode<Hpt>> {
    match n {
        Node::Branch { children, .. } => children.iter().find(|c| !empty(c)).cloned(),
        Node::Extension { child, .. } => Some(child.clone()),
        _ => None,
    }
}

/// Executes one operation on slot `s`; `false` if it does not apply. Panics of
/// the code under test are part of the histories.
fn step(w: &mut World, init: &Init, a: A, s: usize, tag: u8) -> bool {
    let o = 1 - s;
    let key = |i: u8| nib(&init.keys[i as usize]);
    let val = |n: u8| vec![0x80 | n; 36];
    let t = &mut w.slots[s];
    let _ = catch(|| match a {
        Ins(i) => t.insert(key(i), val(tag)),
        Del(i) => {
            t.delete(key(i));
        }
        Extend => {
            // From sources that know more or less about their length.
            let mut l = vec![(key(0), val(tag)), (key(2), val(tag + 16))].into_iter();
            match tag % 3 {
                0 => t.extend(std::iter::from_fn(|| l.next())),
                1 => t.extend(l),
                _ => t.extend(l.filter(|_| true)),
            }
        }
        ExtendPanic => {
            let v = val(tag);
            t.extend((0..2u8).map(|i| if i == 1 { panic!("source") } else { (key(1), v.clone()) }))
        }
        Refused => {
            if let Some(k) = &init.refused {
                t.insert(nib(k), val(tag))
            } else {
                t.delete(key(2));
            }
        }
        Mut => match t.deref_mut() {
            Node::Empty => {}
            Node::Hash(h) => h.0[0] ^= 1,
            Node::Branch { value, .. } | Node::Leaf { value, .. } => *value = val(tag),
            Node::Extension { nibbles, .. } => *nibbles = nibbles.merge_nibble(7),
        },
        MutChild => match t.deref_mut() {
            Node::Branch { children, .. } => {
                if let Some(c) = children.iter_mut().find(|c| !empty(c)) {
                    Arc::make_mut(c).insert(nib(&[9]), val(tag));
                }
            }
            Node::Extension { child, .. } => Arc::make_mut(child).insert(nib(&[9]), val(tag)),
            _ => {}
        },
        Put => *t = Node::Leaf { nibbles: nib(&[1, tag]), value: val(tag) }.into(),
        _ => {}
    });
    match a {
        Hash => {
            let _ = catch(|| w.slots[s].hash());
        }
        HashIntern => {
            let _ = catch(|| {
                w.slots[s].hash_intern();
            });
        }
        Sub0 => {
            if let Ok(Ok(x)) = catch(|| create_trie_subset(&w.slots[s], Vec::<Nibbles>::new())) {
                w.slots[o] = x;
            }
        }
        Sub1 => {
            if let Ok(Ok(x)) = catch(|| create_trie_subset(&w.slots[s], vec![key(0)])) {
                w.slots[o] = x;
            }
        }
        Subs => {
            let _ = catch(|| create_trie_subsets(&w.slots[s], vec![vec![key(1)], vec![]]).is_ok());
        }
        Clone => w.slots[o] = w.slots[s].clone(),
        TakeChild => match first_child(&w.slots[s]) {
            Some(c) => w.slots[o] = (**c).clone(),
            None => return false,
        },
        Embed => {
            if matches!(*w.slots[s], Node::Empty) {
                return false;
            }
            let c: WrappedNode<Hpt> = Arc::new(Box::new(w.slots[s].clone()));
            let other = w.slots[o].clone();
            let mut cs: [WrappedNode<Hpt>; 16] = std::array::from_fn(|_| Node::Empty.into());
            cs[3] = c.clone();
            cs[4] = c;
            cs[5] = Arc::new(Box::new(other));
            w.slots[o] = Node::Branch { children: cs, value: vec![] }.into();
        }
        Diff => {
            let _ = catch(|| create_diff_between_tries(&w.slots[s], &w.slots[o]).to_string());
        }
        Hold => {
            if let Some(c) = first_child(&w.slots[s]) {
                match read::<Hpt>(&c) {
                    Ok(m) => w.held.push((c, m)),
                    Err(_) => return false,
                }
            }
        }
        _ => {}
    }
    true
}

/// Which slot an operation may change.
fn target(a: A, s: usize) -> Option<usize> {
    match a {
        Ins(_) | Del(_) | Extend | ExtendPanic | Refused | Mut | MutChild | Put => Some(s),
        Sub0 | Sub1 | Clone | TakeChild | Embed => Some(1 - s),
        Hash | HashIntern | Subs | Diff | Hold => None,
    }
}

/// Every node reports the hash of its own contents.
fn check_node(n: &Hpt, path: &mut Key) -> Result<(), String> {
    let m = read::<Hpt>(n)?;
    let h = catch(|| n.hash().0).map_err(|p| format!("hash panics: {p}"))?;
    if h != m.root() {
        return Err(format!("the node at {} reports {} but its contents {m:?} have the hash {}", key_str(path), hex(&h), hex(&m.root())));
    }
    match n.deref() {
        Node::Branch { children, .. } => {
            for (i, c) in children.iter().enumerate() {
                if !empty(c) {
                    path.push(i as u8);
                    check_node(c, path)?;
                    path.pop();
                }
            }
        }
        Node::Extension { child, .. } => {
            path.push(0xe);
            check_node(child, path)?;
            path.pop();
        }
        _ => {}
    }
    Ok(())
}

/// As `check_node`, with one computation per node.
pub fn check_all_nodes(t: &Hpt) -> Result<(), String> {
    fn rec(n: &Hpt, path: &mut Key) -> Result<M, String> {
        let m = match n.deref() {
            Node::Empty => return Ok(M::Empty),
            Node::Hash(h) => return Ok(M::Hash(h.0)),
            Node::Leaf { nibbles, value } => M::Leaf(unnib(nibbles)?, value.clone()),
            Node::Branch { children, value } => {
                let mut cs = vec![];
                for (i, c) in children.iter().enumerate() {
                    path.push(i as u8);
                    cs.push(rec(c, path)?);
                    path.pop();
                }
                M::Branch(cs, value.clone())
            }
            Node::Extension { nibbles, child } => {
                let k = unnib(nibbles)?;
                let n = path.len();
                path.extend(&k);
                let c = rec(child, path)?;
                path.truncate(n);
                M::Ext(k, Box::new(c))
            }
        };
        let h = catch(|| n.hash().0).map_err(|p| format!("hash panics: {p}"))?;
        if h != m.root() {
            return Err(format!("the node at {} reports {} but its contents have the hash {}", key_str(path), hex(&h), hex(&m.root())));
        }
        Ok(shrink(m))
    }
    rec(t, &mut vec![]).map(|_| ())
}

/// Overwrites the value of `k` in the node that holds it, through mutable
/// access to all the nodes above.
pub fn change_leaf(t: &mut Hpt, k: &[u8], to: &[u8]) {
    match t.deref_mut() {
        Node::Branch { value, .. } if k.is_empty() => *value = to.to_vec(),
        Node::Branch { children, .. } => change_leaf(&mut **Arc::make_mut(&mut children[k[0] as usize]), &k[1..], to),
        Node::Extension { nibbles, child } => {
            let n = nibbles.count;
            change_leaf(&mut **Arc::make_mut(child), &k[n..], to)
        }
        Node::Leaf { value, .. } => *value = to.to_vec(),
        _ => unreachable!(),
    }
}

fn text(init: &Init, warm: bool, seq: &[(A, usize)]) -> String {
    let ops: Vec<String> = seq.iter().map(|(a, s)| format!("{a:?}@{s}")).collect();
    format!(
        "two {} clones of {} (keys {}), operations {}",
        if warm { "hashed" } else { "unhashed" },
        map_str(&init.map),
        init.keys.iter().map(|k| key_str(k)).collect::<Vec<_>>().join(" "),
        ops.join(" ")
    )
}

/// One sequence; `isolation` for C05, otherwise C04.
fn history(init: &Init, warm: bool, seq: &[(A, usize)], isolation: bool, cov: &mut Cov) -> Case {
    let base = make::<Hpt>(&build(&init.map));
    if warm {
        warm_up(&base);
    }
    let mut w = World { slots: [base.clone(), base], held: vec![] };
    let err = |e: String| Fail(format!("{e}\n  {}", text(init, warm, seq)));
    for (i, (a, s)) in seq.iter().enumerate() {
        let before = if isolation { Some([read::<Hpt>(&w.slots[0])?, read::<Hpt>(&w.slots[1])?]) } else { None };
        if !step(&mut w, init, *a, *s, i as u8 + 1) {
            return Ok(());
        }
        cov.transitions += 1;
        if let Some(b) = before {
            for j in 0..2 {
                if target(*a, *s) != Some(j) && read::<Hpt>(&w.slots[j])? != b[j] {
                    return Err(err(format!("{a:?}@{s} changed the contents of trie {j} to {:?}", read::<Hpt>(&w.slots[j])?)));
                }
            }
            for (c, m) in &w.held {
                if read::<Hpt>(c)? != *m {
                    return Err(err(format!("{a:?}@{s} changed a held sub-trie from {m:?} to {:?}", read::<Hpt>(c)?)));
                }
            }
        }
    }
    cov.traces += 1;
    if isolation {
        // The root hash of every trie and every held part is that of its own
        // contents, whichever is asked first.
        for j in [1, 0] {
            let m = read::<Hpt>(&w.slots[j])?;
            check_hash(&w.slots[j], &m.root()).map_err(|e| err(format!("trie {j}: {e}")))?;
            cov.kind(if m == build(&init.map) { "still as at the start" } else { "changed" });
        }
        for (c, m) in &w.held {
            check_hash(&***c, &m.root()).map_err(|e| err(format!("held sub-trie: {e}")))?;
            cov.kind("held sub-trie");
        }
        return Ok(());
    }
    let last = seq.last().map_or(0, |x| x.1);
    for j in [last, 1 - last] {
        let ser = serde_json::to_string(&w.slots[j]).map_err(|e| err(e.to_string()))?;
        check_node(&w.slots[j], &mut vec![]).map_err(|e| err(format!("trie {j}: {e}")))?;
        let back: Hpt = serde_json::from_str(&ser).map_err(|e| err(e.to_string()))?;
        check_node(&back, &mut vec![]).map_err(|e| err(format!("trie {j} read back from its serialised form: {e}")))?;
        cov.kind("serialised");
    }
    for (c, _) in &w.held {
        check_node(c, &mut vec![]).map_err(|e| err(format!("held sub-trie: {e}")))?;
    }
    Ok(())
}

pub fn c04_c05(isolation: bool) -> ! {
    let th = run().thorough;
    let inits = inits();
    for (name, want) in [("31-bytes", 31), ("32-bytes", 32)] {
        let i = inits.iter().find(|i| i.name == name).unwrap();
        if let M::Branch(cs, _) = build(&i.map) {
            let lens: Vec<usize> = cs.iter().filter(|c| **c != M::Empty).map(|c| c.rlp().unwrap().len()).collect();
            assert_eq!(lens, vec![want; 3]);
        }
    }
    for (set_name, set, max) in [("all", ALL, if th { 4 } else { 3 }), ("core", CORE, if th { 5 } else { 4 })] {
        for (n, init) in inits.iter().enumerate() {
            for warm in [true, false] {
                if set_name == "core" && !warm && (!th || n > 1) {
                    continue; // a hash query later on makes it warm anyway
                }
                for len in 1..=max {
                    // The two tries are interchangeable at the start.
                    let b = 2 * set.len() as u64;
                    let total = set.len() as u64 * b.pow(len as u32 - 1);
                    if set_name == "core" && len < max {
                        continue; // contained in "all", or checked there
                    }
                    scope(&format!("{set_name}{len}-{}-{}", init.name, if warm { "warm" } else { "cold" }), total, |mut i, cov| {
                        let mut seq = vec![];
                        for p in 0..len {
                            let m = if p == 0 { set.len() as u64 } else { b };
                            let x = (i % m) as usize;
                            i /= m;
                            seq.push((set[x % set.len()], x / set.len()));
                        }
                        cov.states += 1;
                        for (a, _) in &seq {
                            cov.kind(match a {
                                Clone | TakeChild | Embed | Hold => "sharing",
                                Hash | HashIntern | Diff => "hashing",
                                Sub0 | Sub1 | Subs => "subset",
                                Mut | MutChild | Put => "direct mutation",
                                _ => "update",
                            });
                        }
                        sample(|| text(init, warm, &seq));
                        history(init, warm, &seq, isolation, cov)
                    });
                }
            }
        }
    }
    crate::large::caches(isolation);
    if isolation {
        finish(&["large", "sharing", "hashing", "subset", "direct mutation", "update", "held sub-trie", "still as at the start", "changed"]);
    }
    finish(&["large", "sharing", "hashing", "subset", "direct mutation", "update", "serialised"]);
}

// ------------------------------------------------------------------------ C13

/// A source that claims to have at least (or at most) as many entries as it has.
struct Hinted<I>(I, (usize, Option<usize>));

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

/// Bulk insertion of `seq[..]`, the source panicking before entry `stop`.
pub fn bulk<N: Trie>(start: &Map, warm: bool, seq: &[(Key, Ent)], stop: Option<usize>, cov: &mut Cov) -> Case {
    let mut t = make::<N>(&build(start));
    let shared = t.clone();
    if warm {
        warm_up(&t);
    }
    // One by one.
    let mut m = start.clone();
    let mut refused = false;
    for (i, (k, e)) in seq.iter().enumerate() {
        if stop == Some(i) {
            break;
        }
        match expect(&m, &Op::Ins(k.clone(), e.clone())) {
            Exp::Done(_, m2) => m = m2,
            Exp::Panic => {
                refused = true;
                break;
            }
        }
    }
    let err = |w: String| {
        let s: Vec<String> = seq.iter().map(|(k, e)| format!("{}={}", key_str(k), ent_str(e))).collect();
        Fail(format!(
            "{} {} {}, extended by [{}]{}: {w}",
            if warm { "hashed" } else { "unhashed" },
            N::NAME,
            map_str(start),
            s.join(", "),
            stop.map_or(String::new(), |i| format!(", the source panics at entry {i}"))
        ))
    };
    let source = |seq: &[(Key, Ent)]| -> Vec<(Nibbles, ValOrHash)> { seq.iter().map(|(k, e)| (nib(k), voh(e))).collect() };
    let src = source(seq);
    let n = src.len();
    let it = (0..=n).map_while(|i| {
        if stop == Some(i) {
            panic!("source")
        }
        src.get(i).cloned()
    });
    let before = t.clone();
    let r = catch(|| t.extend(it));
    cov.transitions += seq.len() as u64 + 1;
    match (r, refused || stop.is_some()) {
        (Err(p), false) => return Err(err(format!("panics: {p}"))),
        (Ok(()), true) => return Err(err("does not panic".into())),
        _ => {}
    }
    cov.kind(if refused {
        "refused entry"
    } else if stop.is_some() {
        "panicking source"
    } else {
        "complete"
    });
    let r = build(&m);
    let got = read::<N>(&t).map_err(err)?;
    if got != r {
        return Err(err(format!("the trie is {got:?}\n  expected {r:?}")));
    }
    check_hash(&t, &r.root()).map_err(err)?;
    check_iter(&t, &m).map_err(err)?;
    check_hash(&shared, &build(start).root()).map_err(|w| err(format!("clone taken before: {w}")))?;
    cov.traces += 1;
    if stop.is_none() {
        // Whatever the source tells about its length.
        for (how, hint) in [("exact", (n, Some(n))), ("no", (0, None)), ("bounded", (0, Some(n))), ("open", (n, None))] {
            let mut u = before.clone();
            let _ = catch(|| u.extend(Hinted(src.iter().cloned(), hint)));
            cov.transitions += seq.len() as u64;
            let got = read::<N>(&u).map_err(err)?;
            if got != r {
                return Err(err(format!("from a source with {how} size hint: the trie is {got:?}\n  expected {r:?}")));
            }
            check_hash(&u, &r.root()).map_err(|w| err(format!("from a source with {how} size hint: {w}")))?;
        }
    }
    if start.is_empty() && !warm && stop.is_none() {
        let src = source(seq);
        match catch(|| N::from_entries(src)) {
            Err(p) if !refused => return Err(err(format!("FromIterator panics: {p}"))),
            Ok(_) if refused => return Err(err("FromIterator does not panic".into())),
            Ok(t) => {
                let got = read::<N>(&t).map_err(err)?;
                if got != r {
                    return Err(err(format!("FromIterator gives {got:?}\n  expected {r:?}")));
                }
                check_hash(&t, &r.root()).map_err(|w| err(format!("FromIterator: {w}")))?;
                cov.kind("from iterator");
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn c13() -> ! {
    let th = run().thorough;
    let e = |k: &str, v: Ent| (d(k), v);
    let mut pool = vec![
        e("12", v(40, 1)),
        e("12", v(1, 2)),
        e("13", v(40, 3)),
        e("1", v(3, 4)),
        e("", v(33, 5)),
        e("3", Ent::Hash(branch_hash(1))),
        e("345", v(2, 6)),
        e("12", Ent::Hash(branch_hash(2))),
    ];
    if th {
        pool.push(e("1200", v(40, 7)));
        pool.push(e("f", v(31, 8)));
    }
    let starts: Vec<Map> = [
        vec![],
        vec![e("12", v(40, 9))],
        vec![e("12", v(2, 9)), e("2", v(40, 9)), e("", v(1, 1))],
        vec![e("3", Ent::Hash(branch_hash(3))), e("1234", v(40, 1)), e("1235", v(40, 1))],
    ]
    .into_iter()
    .map(|v| v.into_iter().collect())
    .collect();
    let b = pool.len() as u64;
    for len in 0..=if th { 5 } else { 4 } {
        for (si, start) in starts.iter().enumerate() {
            scope(&format!("len{len}-start{si}"), b.pow(len), |mut i, cov| {
                let mut seq = vec![];
                for _ in 0..len {
                    seq.push(pool[(i % b) as usize].clone());
                    i /= b;
                }
                cov.states += 1;
                for warm in [false, true] {
                    let stops = (0..=len as usize).map(Some).chain([None]);
                    for stop in stops {
                        bulk::<Hpt>(start, warm, &seq, stop, cov)?;
                        if !warm {
                            bulk::<Std>(start, warm, &seq, stop, cov)?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // Longer runs: every prefix of every pattern of repeated keys.
    let ks: Vec<Key> = probes(&[d("12"), d("1234"), pattern(), flip(&pattern(), 40, 1)]);
    let n = ks.len();
    scope("long", (n * n) as u64, |i, cov| {
        let (a, b) = (i as usize / n, i as usize % n);
        // All keys forward and then again from `a`, with `b` repeated in between.
        let mut seq: Vec<(Key, Ent)> = ks.iter().enumerate().map(|(i, k)| (k.clone(), v(1 + i % 40, i as u8 + 1))).collect();
        seq.insert(a, (ks[b].clone(), v(40, 0xee)));
        seq.push((ks[a].clone(), v(35, 0xdd)));
        cov.states += 1;
        for start in [&Map::new(), &starts[2]] {
            bulk::<Hpt>(start, true, &seq, None, cov)?;
            bulk::<Std>(start, false, &seq, None, cov)?;
        }
        bulk::<Hpt>(&Map::new(), false, &seq, Some(a), cov)?;
        bulk::<Hpt>(&Map::new(), false, &seq, None, cov)?;
        Ok(())
    });
    crate::large::c13();
    finish(&["large", "complete", "panicking source", "refused entry", "from iterator"]);
}
