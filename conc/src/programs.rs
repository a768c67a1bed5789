//! The tries, operations and programs of C19.

use std::{
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

use eth_trie_utils::{
    debug_tools::diff::create_diff_between_tries,
    nibbles::Nibbles,
    partial_trie::{Node, PartialTrie, TrieNodeIntern, WrappedNode},
    trie_subsets::{create_trie_subset, create_trie_subsets},
};
use parking_lot::ctl;

use crate::{
    engine::*,
    explore::{explore_capped, self_test, Program},
    model::*,
    real::*,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    HashA,
    HashB,
    HashOwn,
    ReadA,
    CloneA,
    InsertOwn,
    OverwriteOwn,
    DeleteOwn,
    InsertHash,
    DeleteHash,
    CloneMutateHash,
    SubsetA,
    SubsetsA,
    /// A subset for no key at all, which caches the hash of the root itself.
    SubsetNone,
    /// Hashes a trie that has `a` as a child.
    EmbedA,
    DiffAB,
    EqualAB,
    EqualBA,
    SerialiseA,
    NodesA,
    DebugA,
    DropOwn,
}
use Op::*;

const ALL: [Op; 22] = [
    HashA, HashB, HashOwn, ReadA, CloneA, InsertOwn, OverwriteOwn, DeleteOwn, InsertHash, DeleteHash, CloneMutateHash, SubsetA, SubsetsA,
    SubsetNone, EmbedA, DiffAB, EqualAB, EqualBA, SerialiseA, NodesA, DebugA, DropOwn,
];

fn read_only(o: Op) -> bool {
    matches!(o, HashA | HashB | HashOwn | ReadA | DiffAB | EqualAB | EqualBA | SerialiseA | NodesA | DebugA)
}

struct Base {
    name: &'static str,
    map: Map,
    /// Keys to insert anew, to overwrite and to delete.
    fresh: Key,
    over: Key,
    gone: Key,
}

fn big(b: u8) -> Ent {
    Ent::Val((0..40).map(|i| b.wrapping_add(i)).collect())
}

fn small(b: u8) -> Ent {
    Ent::Val(vec![b])
}

fn base(name: &'static str, entries: &[(&[u8], Ent)], fresh: &[u8], over: &[u8], gone: &[u8]) -> Base {
    let map = entries.iter().map(|(k, e)| (k.to_vec(), e.clone())).collect();
    Base { name, map, fresh: fresh.to_vec(), over: over.to_vec(), gone: gone.to_vec() }
}

fn bases() -> Vec<Base> {
    let sub = build(&[(vec![1, 2], big(9)), (vec![3], big(8))].into_iter().collect());
    vec![
        base("leaf", &[(&[1, 2], big(1))], &[1, 3], &[1, 2], &[1, 2]),
        base("inline", &[(&[1], small(1)), (&[2], small(2))], &[3], &[1], &[2]),
        base("branch", &[(&[1, 2], big(1)), (&[2, 2], big(2)), (&[3], small(3))], &[4], &[1, 2], &[3]),
        base("value", &[(&[], big(4)), (&[5, 1], big(1)), (&[5, 2], small(2))], &[5], &[], &[5, 2]),
        base("extension", &[(&[1, 2, 3, 4], big(1)), (&[1, 2, 5], big(2)), (&[1, 2], small(7))], &[1, 3], &[1, 2, 5], &[1, 2]),
        base("deep", &[(&[0, 0, 0], big(1)), (&[0, 0, 1], big(2)), (&[0, 1], big(3)), (&[1], small(3))], &[0, 0, 2], &[0, 0, 0], &[0, 1]),
        base("partial", &[(&[1], Ent::Hash(sub.root())), (&[2, 3], big(2)), (&[2, 4], big(3))], &[3], &[2, 3], &[2, 4]),
    ]
}

struct World {
    a: Hpt,
    b: Hpt,
    own: Vec<Mutex<Hpt>>,
    errors: Mutex<Vec<String>>,
}

struct Sh<T>(T);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}

#[derive(Clone)]
struct Scenario {
    base: usize,
    warm: u8,
    programs: Vec<Vec<Op>>,
}

/// A reference trie with the hashes of all its nodes.
struct Tree {
    m: M,
    h: H,
    kids: Vec<Tree>,
}

impl Tree {
    fn of(map: &Map) -> Tree {
        Self::new(&build(map))
    }
    fn new(m: &M) -> Tree {
        let kids = match m {
            M::Branch(cs, _) => cs.iter().map(Self::new).collect(),
            M::Ext(_, c) => vec![Self::new(c)],
            _ => vec![],
        };
        Tree { m: m.clone(), h: m.root(), kids }
    }
}

struct Want {
    a: Map,
    b: Map,
    am: Tree,
    bm: Tree,
    diff: Option<String>,
}

fn want(b: &Base) -> Want {
    let a = b.map.clone();
    let mut m = a.clone();
    m.insert(b.fresh.clone(), big(70));
    let (am, bm) = (Tree::of(&a), Tree::of(&m));
    let diff = diff_text(&make(&am.m), &make(&bm.m));
    Want { a, b: m, am, bm, diff }
}

fn diff_text(a: &Hpt, b: &Hpt) -> Option<String> {
    create_diff_between_tries(a, b).latest_diff_res.map(|d| d.to_string())
}

fn world(b: &Base, w: &Want, warm: u8, n: usize) -> World {
    let mut a: Hpt = make(&w.am.m);
    match warm {
        0 => {}
        1 => {
            a.hash();
            a.hash_intern();
        }
        // Everything is hashed except the path to the overwritten key.
        _ => {
            a.hash();
            a.hash_intern();
            a.insert(nib(&b.over), voh(&small(99)));
            a.insert(nib(&b.over), voh(&b.map[&b.over]));
        }
    }
    let mut o = a.clone();
    o.insert(nib(&b.fresh), voh(&big(70)));
    let own = (0..n).map(|_| Mutex::new(a.clone())).collect();
    World { a, b: o, own, errors: Mutex::default() }
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} is {got:?}, expected {want:?}"))
    }
}

fn nodes(t: &Hpt, m: &Tree) -> Result<(), String> {
    match &**t {
        Node::Branch { children, .. } => {
            for i in 0..16 {
                nodes(&children[i], &m.kids[i])?;
            }
        }
        Node::Extension { child, .. } => nodes(child, &m.kids[0])?,
        _ => {}
    }
    same("the hash of a node", t.hash().0, m.h)
}

fn contents(t: &Hpt, m: &Map) -> Result<(), String> {
    same("the contents", collect_items(t, m.len() + 4)?.into_iter().collect::<Map>(), m.clone())?;
    for (k, e) in m {
        let want = match e {
            Ent::Val(v) => Some(v.clone()),
            Ent::Hash(_) => None,
        };
        same("the value", t.get(nib(k)).map(|v| v.to_vec()), want)?;
    }
    Ok(())
}

fn run_op(o: Op, b: &Base, w: &Want, s: &World, own: &mut Hpt, map: &mut Map) -> Result<(), String> {
    match o {
        HashA => same("the hash", s.a.hash().0, w.am.h),
        HashB => same("the hash", s.b.hash().0, w.bm.h),
        HashOwn => same("the hash", own.hash().0, build(map).root()),
        ReadA => contents(&s.a, &w.a),
        CloneA => {
            let c = s.a.clone();
            contents(&c, &w.a)
        }
        InsertOwn | InsertHash => {
            own.insert(nib(&b.fresh), voh(&big(33)));
            map.insert(b.fresh.clone(), big(33));
            if o == InsertHash {
                same("the hash", own.hash().0, build(map).root())?;
            }
            Ok(())
        }
        OverwriteOwn => {
            own.insert(nib(&b.over), voh(&big(44)));
            map.insert(b.over.clone(), big(44));
            Ok(())
        }
        DeleteOwn | DeleteHash => {
            let want = match map.remove(&b.gone) {
                Some(Ent::Val(v)) => Some(v),
                _ => None,
            };
            same("the deleted value", own.delete(nib(&b.gone)), want)?;
            if o == DeleteHash {
                same("the hash", own.hash().0, build(map).root())?;
            }
            Ok(())
        }
        CloneMutateHash => {
            let mut c = s.a.clone();
            let mut m = w.a.clone();
            c.insert(nib(&b.over), voh(&big(55)));
            m.insert(b.over.clone(), big(55));
            same("the hash", c.hash().0, build(&m).root())?;
            c.insert(nib(&b.over), voh(&w.a[&b.over]));
            same("the hash", c.hash().0, w.am.h)
        }
        SubsetA => {
            let t = create_trie_subset(&s.a, [nib(&b.gone)]).map_err(|e| format!("subset fails: {e}"))?;
            same("the hash of the subset", t.hash().0, w.am.h)
        }
        SubsetsA => {
            for t in create_trie_subsets(&s.a, [[nib(&b.gone)], [nib(&b.over)]]).map_err(|e| format!("subset fails: {e}"))? {
                same("the hash of the subset", t.hash().0, w.am.h)?;
            }
            Ok(())
        }
        SubsetNone => {
            let t = create_trie_subset(&s.a, std::iter::empty::<Nibbles>()).map_err(|e| format!("subset fails: {e}"))?;
            same("the hash of the subset", t.hash().0, w.am.h)
        }
        EmbedA => {
            let mut cs: [WrappedNode<Hpt>; 16] = std::array::from_fn(|_| Node::Empty.into());
            let mut ms = vec![M::Empty; 16];
            for i in [2, 7] {
                cs[i] = Arc::new(Box::new(s.a.clone()));
                ms[i] = w.am.m.clone();
            }
            let t: Hpt = Node::Branch { children: cs, value: vec![] }.into();
            same("the hash of a trie with two copies", t.hash().0, M::Branch(ms, vec![]).root())
        }
        DiffAB => same("the difference", diff_text(&s.a, &s.b), w.diff.clone()),
        EqualAB => same("equality", (s.a == s.b, s.a == *own), (false, w.a == *map)),
        EqualBA => same("equality", (s.b == s.a, *own == s.a, s.a == s.a.clone()), (false, w.a == *map, true)),
        SerialiseA => {
            let j = serde_json::to_string(&s.a).map_err(|e| format!("{e}"))?;
            let t: Hpt = serde_json::from_str(&j).map_err(|e| format!("{e}"))?;
            same("what was read back", read(&t)?, w.am.m.clone())?;
            same("the hash of what was read back", t.hash().0, w.am.h)
        }
        NodesA => nodes(&s.a, &w.am),
        DebugA => {
            let _ = format!("{:?}", s.a);
            Ok(())
        }
        DropOwn => {
            *own = Hpt::default();
            map.clear();
            Ok(())
        }
    }
}

/// The contents of a thread's own trie after its program.
fn own_after(p: &[Op], b: &Base) -> Map {
    let mut m = b.map.clone();
    for o in p {
        match o {
            InsertOwn | InsertHash => {
                m.insert(b.fresh.clone(), big(33));
            }
            OverwriteOwn => {
                m.insert(b.over.clone(), big(44));
            }
            DeleteOwn | DeleteHash => {
                m.remove(&b.gone);
            }
            DropOwn => m.clear(),
            _ => {}
        }
    }
    m
}

fn scenario(sc: &Scenario, bs: &'static [(Base, Want)], until: Instant, cov: &mut Cov) -> Case {
    let (b, w) = &bs[sc.base];
    let cur: Mutex<Option<Arc<Sh<World>>>> = Mutex::default();
    let n = sc.programs.len();
    let make = || -> Vec<Program> {
        let s = Arc::new(Sh(world(b, w, sc.warm, n)));
        *cur.lock().unwrap() = Some(s.clone());
        (0..n)
            .map(|t| -> Program {
                let (s, p) = (s.clone(), sc.programs[t].clone());
                Box::new(move || {
                    let s = &s.0;
                    let mut own = std::mem::take(&mut *s.own[t].lock().unwrap());
                    let mut map = b.map.clone();
                    for o in p {
                        ctl::boundary(!read_only(o));
                        if let Err(e) = run_op(o, b, w, s, &mut own, &mut map) {
                            s.errors.lock().unwrap().push(format!("thread {t} {o:?}: {e}"));
                            break;
                        }
                    }
                    *s.own[t].lock().unwrap() = own;
                })
            })
            .collect()
    };
    let finals: Vec<(Map, Tree)> = sc.programs.iter().map(|p| own_after(p, b)).map(|m| (m.clone(), Tree::of(&m))).collect();
    let check = || -> Result<(), String> {
        let s = cur.lock().unwrap().take().unwrap();
        let s = &s.0;
        if let Some(e) = s.errors.lock().unwrap().first() {
            return Err(e.clone());
        }
        let fin = |who: String, t: &Hpt, map: &Map, m: &Tree| {
            same("the structure", read(t)?, m.m.clone())?;
            nodes(t, m)?;
            contents(t, map)
        }
        .map_err(|e: String| format!("afterwards, {who}: {e}"));
        fin("a".into(), &s.a, &w.a, &w.am)?;
        fin("b".into(), &s.b, &w.b, &w.bm)?;
        for (t, (map, m)) in finals.iter().enumerate() {
            fin(format!("the trie of thread {t}"), &s.own[t].lock().unwrap(), map, m)?;
        }
        Ok(())
    };
    let st = explore_capped(if run().thorough { 3_000_000 } else { 30_000 }, until, &make, &check).map_err(|e| Fail(format!("trie {} ({}), {:?}: {e}", b.name, sc.warm, sc.programs)))?;
    cov.states += st.states;
    cov.transitions += st.steps;
    cov.traces += st.schedules;
    *cov.kinds.entry("schedules").or_insert(0) += st.schedules;
    *cov.kinds.entry("schedules cut as equivalent").or_insert(0) += st.pruned;
    if st.schedules > 1 {
        cov.kind("programs with races");
    }
    if st.capped {
        cov.kind("programs explored incompletely");
    }
    if let Some(b) = st.bounded {
        cov.kind(["programs explored without preemptions", "programs explored up to one preemption", "programs explored up to two preemptions"][b]);
    }
    if std::env::var("MC_TOP").is_ok() {
        eprintln!("TOP {} {} {} {:?} {}", st.schedules, b.name, sc.warm, sc.programs, st.steps);
    }
    if st.schedules > 5 {
        sample(|| format!("trie {} (cache state {}), threads {:?}: {} schedules", b.name, sc.warm, sc.programs, st.schedules));
    }
    Ok(())
}

pub fn c19() -> ! {
    let th = run().thorough;
    std::panic::set_hook(Box::new(|i| {
        ctl::note_panic(i.to_string().replace('\n', " "));
        note_panic(i.to_string());
    }));
    self_test();
    if !tries_shareable() {
        violation("-", None, "the tries cannot be sent to or shared between threads");
    }
    // The explorer notices hangs of the code under test itself.
    HANG_S.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
    OVERSUBSCRIBE.store(4, std::sync::atomic::Ordering::SeqCst);
    let bs: &'static [(Base, Want)] = Box::leak(bases().into_iter().map(|b| (want(&b), b)).map(|(w, b)| (b, w)).collect::<Vec<_>>().into_boxed_slice());
    // Never reached by the programs below unless the code under test has many
    // more lock operations than now.
    let begin = Instant::now();
    let part = Duration::from_secs(if th { 2400 } else { 100 });
    let go = |name: &str, l: Vec<Scenario>, parts: u32| {
        let until = begin + part * parts;
        scope(name, l.len() as u64, |i, cov| scenario(&l[i as usize], bs, until, cov));
    };
    let each = |f: &mut dyn FnMut(usize, u8)| {
        for b in 0..bs.len() {
            for w in 0..3 {
                f(b, w);
            }
        }
    };
    let name = |b: usize| bs[b].0.name;
    // Two threads, one operation each.
    let mut l = vec![];
    each(&mut |base, warm| {
        for (i, x) in ALL.iter().enumerate() {
            for y in &ALL[i..] {
                let long = name(base) == "deep" && warm == 0 && [x, y].iter().all(|o| [DiffAB, NodesA].contains(*o));
                if th || !long {
                    l.push(Scenario { base, warm, programs: vec![vec![*x], vec![*y]] });
                }
            }
        }
    });
    go("two threads, one operation", l, 1);
    // Two threads, two operations each.
    let core: &[Op] = if th {
        &[HashA, HashB, InsertHash, DeleteHash, CloneMutateHash, SubsetA, DiffAB, DropOwn]
    } else {
        &[HashA, InsertHash, CloneMutateHash, DiffAB, DropOwn]
    };
    let progs: Vec<Vec<Op>> = core.iter().flat_map(|x| core.iter().map(|y| vec![*x, *y])).collect();
    let mut l = vec![];
    each(&mut |base, warm| {
        if ["deep", "inline"].contains(&name(base)) || (!th && !["branch", "value"].contains(&name(base))) {
            return;
        }
        for (i, x) in progs.iter().enumerate() {
            for y in &progs[i..] {
                l.push(Scenario { base, warm, programs: vec![x.clone(), y.clone()] });
            }
        }
    });
    go("two threads, two operations", l, 2);
    // Three threads, one operation each.
    let core: &[Op] = if th {
        &[HashA, HashB, HashOwn, ReadA, InsertHash, DeleteHash, CloneMutateHash, SubsetA, DiffAB, SerialiseA, NodesA]
    } else {
        &[HashA, HashB, InsertHash, CloneMutateHash, SubsetA, DiffAB]
    };
    let mut l = vec![];
    each(&mut |base, warm| {
        let big = ["partial", "extension"].contains(&name(base)) && warm == 0;
        if big || name(base) == "deep" || (!th && !["branch", "value", "leaf"].contains(&name(base))) {
            return;
        }
        for (i, x) in core.iter().enumerate() {
            for (j, y) in core.iter().enumerate().skip(i) {
                for z in &core[j..] {
                    let long = [x, y, z].iter().filter(|o| [DiffAB, NodesA].contains(**o)).count();
                    if long > 1 || (!th && long > 0 && name(base) != "leaf") {
                        continue;
                    }
                    l.push(Scenario { base, warm, programs: vec![vec![*x], vec![*y], vec![*z]] });
                }
            }
        }
    });
    go("three threads, one operation", l, 3);
    finish(&["schedules"]);
}
