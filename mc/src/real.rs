//! Bridge between the reference model and the code under test. Reads and
//! builds real tries only through the crate's public types, without using the
//! operations that are being checked.

use std::sync::Arc;

use eth_trie_utils::{
    nibbles::Nibbles,
    partial_trie::{HashedPartialTrie, Node, PartialTrie, StandardTrie},
    trie_ops::ValOrHash,
};
use ethereum_types::{H256, U512};

use crate::model::*;

pub type Hpt = HashedPartialTrie;
pub type Std = StandardTrie;

/// A trie variant of the crate.
pub trait Trie: PartialTrie + 'static {
    const NAME: &'static str;
    fn from_entries(e: Vec<(Nibbles, ValOrHash)>) -> Self;
}
impl Trie for Hpt {
    const NAME: &'static str = "HashedPartialTrie";
    fn from_entries(e: Vec<(Nibbles, ValOrHash)>) -> Self {
        e.into_iter().collect()
    }
}
impl Trie for Std {
    const NAME: &'static str = "StandardTrie";
    fn from_entries(e: Vec<(Nibbles, ValOrHash)>) -> Self {
        e.into_iter().collect()
    }
}

/// Fills the hash caches of a trie, that of its root included.
pub fn warm_up<N: PartialTrie + eth_trie_utils::partial_trie::TrieNodeIntern>(t: &N) {
    let _ = crate::engine::catch(|| {
        t.hash();
        t.hash_intern();
    });
}

pub fn nib(k: &[u8]) -> Nibbles {
    let mut w = [0u64; 8];
    for (i, n) in k.iter().rev().enumerate() {
        w[i / 16] |= (*n as u64) << (4 * (i % 16));
    }
    Nibbles { count: k.len(), packed: U512(w) }
}

/// Reads the fields directly; `Err` if unused bits are not zero.
pub fn unnib(n: &Nibbles) -> Result<Key, String> {
    if n.count > 128 {
        return Err(format!("nibble count {} is out of range", n.count));
    }
    let get = |i: usize| ((n.packed.0[i / 16] >> (4 * (i % 16))) & 15) as u8;
    if (n.count..128).any(|i| get(i) != 0) {
        return Err(format!("unused bits are set (count {}, packed {:x})", n.count, n.packed));
    }
    Ok((0..n.count).rev().map(get).collect())
}

pub fn voh(e: &Ent) -> ValOrHash {
    match e {
        Ent::Val(v) => ValOrHash::Val(v.clone()),
        Ent::Hash(h) => ValOrHash::Hash(H256(*h)),
    }
}

pub fn unvoh(v: ValOrHash) -> Ent {
    match v {
        ValOrHash::Val(v) => Ent::Val(v),
        ValOrHash::Hash(h) => Ent::Hash(h.0),
    }
}

/// Structure of a real trie.
pub fn read<N: PartialTrie>(n: &Node<N>) -> Result<M, String> {
    Ok(match n {
        Node::Empty => M::Empty,
        Node::Hash(h) => M::Hash(h.0),
        Node::Branch { children, value } => {
            let cs = children.iter().map(|c| read::<N>(c)).collect::<Result<Vec<_>, _>>()?;
            M::Branch(cs, value.clone())
        }
        Node::Extension { nibbles, child } => M::Ext(unnib(nibbles)?, Box::new(read::<N>(child)?)),
        Node::Leaf { nibbles, value } => M::Leaf(unnib(nibbles)?, value.clone()),
    })
}

/// Builds a real trie node by node.
pub fn make<N: PartialTrie>(m: &M) -> N {
    N::new(make_node(m))
}

pub fn make_node<N: PartialTrie>(m: &M) -> Node<N> {
    match m {
        M::Empty => Node::Empty,
        M::Hash(h) => Node::Hash(H256(*h)),
        M::Branch(cs, v) => Node::Branch {
            children: std::array::from_fn(|i| Arc::new(Box::new(make::<N>(&cs[i])))),
            value: v.clone(),
        },
        M::Ext(k, c) => Node::Extension { nibbles: nib(k), child: Arc::new(Box::new(make::<N>(c))) },
        M::Leaf(k, v) => Node::Leaf { nibbles: nib(k), value: v.clone() },
    }
}

/// Iterates at most `cap` entries, so that a runaway iterator is an error and
/// not a hang.
pub fn collect_items<N: PartialTrie>(t: &N, cap: usize) -> Result<Vec<(Key, Ent)>, String> {
    let mut out = vec![];
    for (k, v) in t.items() {
        if out.len() >= cap {
            return Err(format!("iterator yields more than {cap} entries"));
        }
        out.push((unnib(&k)?, unvoh(v)));
    }
    Ok(out)
}
