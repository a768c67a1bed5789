//! C17: values. C18: serialisation.

use std::fmt::Debug;

use eth_trie_utils::{nibbles::Nibbles, partial_trie::Node, trie_ops::ValOrHash};
use ethereum_types::{H256, U128, U256, U512};
use serde::{de::DeserializeOwned, Serialize};

use crate::{engine::*, mapcheck::*, model::*, real::*, spaces::*};

/// Places where a value can end up: alone, in a leaf below a branch, in a
/// branch, below an extension, in place of another value.
fn contexts() -> Vec<(Map, Key)> {
    let m = |ks: &[&[u8]]| -> Map { ks.iter().map(|k| (k.to_vec(), v(5, 3))).collect() };
    vec![
        (m(&[]), vec![]),
        (m(&[]), vec![1, 2, 3]),
        (m(&[&[1, 2]]), vec![1, 3]),
        (m(&[&[1, 2, 3]]), vec![1, 2]),
        (m(&[&[1, 2]]), vec![1, 2]),
        (m(&[&[1, 2, 3], &[1, 2, 4]]), vec![1, 2]),
        (m(&[&[1, 2, 3], &[1, 2, 4]]), vec![1]),
        (m(&[&[1, 2, 3], &[1, 2, 4], &[1, 2]]), vec![1, 2]),
    ]
}

fn value<T: Into<ValOrHash> + Clone + Debug>(x: T, want: Ent, cov: &mut Cov) -> Case {
    let what = || {
        let s = format!("{x:?}");
        format!("{} {}", std::any::type_name::<T>(), if s.len() > 80 { format!("{}..", s.chars().take(80).collect::<String>()) } else { s })
    };
    let err = |w: String| Fail(format!("{}: {w}", what()));
    let got = catch(|| unvoh(x.clone().into())).map_err(|p| err(format!("conversion panics: {p}")))?;
    cov.transitions += 1;
    cov.states += 1;
    if got != want {
        return Err(err(format!("converts to {}, expected {}", full(&got), full(&want))));
    }
    let (e_val, e_hash) = (catch(|| x.clone().into().expect_val()), catch(|| x.clone().into().expect_hash().0));
    let (w_val, w_hash) = match &want {
        Ent::Val(v) => (Some(v.clone()), None),
        Ent::Hash(h) => (None, Some(*h)),
    };
    if e_val.clone().ok() != w_val || e_hash.clone().ok() != w_hash {
        return Err(err(format!("expect_val gives {e_val:?} and expect_hash {e_hash:?}")));
    }
    if want == Ent::Val(vec![]) {
        return Ok(()); // an empty value cannot be inserted
    }
    fn one<N: Trie, T: Into<ValOrHash> + Clone>(x: &T, want: &Ent, cov: &mut Cov) -> Result<(), String> {
        for (m, k) in contexts() {
            let mut t: N = make(&build(&m));
            let m2 = match expect(&m, &Op::Ins(k.clone(), want.clone())) {
                Exp::Done(_, n) => n,
                Exp::Panic => continue,
            };
            let (x2, k2) = (x.clone(), nib(&k));
            catch(|| t.insert(k2, x2)).map_err(|p| format!("insertion at {} into {} panics: {p}", key_str(&k), map_str(&m)))?;
            check_gets(&t, &m2, &[k.clone()])?;
            check_iter(&t, &m2)?;
            cov.transitions += 3;
            cov.traces += 1;
            if let Ent::Val(b) = want {
                let got = apply(&mut t, &Op::Del(k.clone())).map_err(|p| format!("delete panics: {p}"))?;
                if got.as_ref() != Some(b) {
                    return Err(format!("delete returns {got:?}, expected {}", hex(b)));
                }
                cov.kind("value");
            } else {
                cov.kind("hash");
            }
            // Through bulk insertion.
            let mut t: N = make(&build(&m));
            let (x2, k2) = (x.clone(), nib(&k));
            catch(|| t.extend([(k2, x2)])).map_err(|p| format!("extend panics: {p}"))?;
            check_iter(&t, &m2)?;
        }
        Ok(())
    }
    one::<Hpt, T>(&x, &want, cov).map_err(err)?;
    one::<Std, T>(&x, &want, cov).map_err(err)
}

fn full(e: &Ent) -> String {
    match e {
        Ent::Val(v) => format!("value 0x{}", hex(v)),
        Ent::Hash(h) => format!("hash 0x{}", hex(h)),
    }
}

fn words(bits: usize) -> Vec<Vec<u8>> {
    let n = bits / 8;
    let mut out = vec![vec![0; n], vec![0xff; n], (1..=n as u8).collect(), (1..=n as u8).rev().collect()];
    for b in 0..bits {
        let mut one = vec![0u8; n];
        one[n - 1 - b / 8] = 1 << (b % 8);
        out.push(one.iter().map(|x| !x).collect());
        out.push(one);
    }
    for l in 1..n {
        out.push((0..n).map(|i| if i < l { 0 } else { 0x80 }).collect());
        out.push((0..n).map(|i| if i < l { 0x7f } else { 0 }).collect());
    }
    out
}

pub fn c17() -> ! {
    let val = |b: &[u8]| Ent::Val(b.to_vec());
    scope("u8-u16", 65536, |i, cov| {
        if i < 256 {
            value(i as u8, val(&[i as u8]), cov)?;
        }
        value(i as u16, val(&(i as u16).to_be_bytes()), cov)
    });
    for bits in [32usize, 64, 128, 256, 512] {
        let ws = words(bits);
        scope(&format!("u{bits}"), ws.len() as u64, |i, cov| {
            let b = &ws[i as usize];
            sample(|| format!("{bits}-bit integer {}", hex(b)));
            if run().thorough {
                // Two words combined: every pair of set bits.
                for o in &ws {
                    let x: Vec<u8> = b.iter().zip(o).map(|(a, b)| a | b).collect();
                    match bits {
                        64 => value(u64::from_be_bytes(x[..].try_into().unwrap()), val(&x), cov)?,
                        128 => value(U128::from_big_endian(&x), val(&x), cov)?,
                        _ => {}
                    }
                }
            }
            match bits {
                32 => value(u32::from_be_bytes(b[..].try_into().unwrap()), val(b), cov),
                64 => value(u64::from_be_bytes(b[..].try_into().unwrap()), val(b), cov),
                128 => value(U128::from_big_endian(b), val(b), cov),
                256 => {
                    value(U256::from_big_endian(b), val(b), cov)?;
                    value(H256::from_slice(b), Ent::Hash(b[..].try_into().unwrap()), cov)
                }
                _ => value(U512::from_big_endian(b), val(b), cov),
            }
        });
    }
    scope("bytes", 300, |i, cov| {
        let n = i as usize;
        for p in [vec![0u8; n], vec![0xff; n], vec![0x80; n], (0..n).map(|i| i as u8).collect::<Vec<u8>>()] {
            value(p.clone(), val(&p), cov)?;
            value(&p[..], val(&p), cov)?;
        }
        Ok(())
    });
    scope("byte", 65536 + 256, |i, cov| {
        if i < 256 {
            value(vec![i as u8], val(&[i as u8]), cov)
        } else {
            let b = ((i - 256) as u16).to_be_bytes();
            value(b.to_vec(), val(&b), cov)
        }
    });
    for (j, n) in [65535usize, 65536, 70000].into_iter().enumerate() {
        scope(&format!("big{j}"), 1, |_, cov| {
            let p: Vec<u8> = (0..n).map(|i| (i / 7) as u8).collect();
            value(p.clone(), val(&p), cov)?;
            value(&p[..], val(&p), cov)
        });
    }
    finish(&["value", "hash"]);
}

// ------------------------------------------------------------------------ C18

fn reread<T: Serialize + DeserializeOwned>(x: &T, how: usize) -> Result<T, String> {
    // The limit on the nesting of JSON texts is none of the crate's.
    fn deep<'a, T: DeserializeOwned>(mut d: serde_json::Deserializer<impl serde_json::de::Read<'a>>) -> T {
        d.disable_recursion_limit();
        let x = T::deserialize(&mut d).unwrap();
        d.end().unwrap();
        x
    }
    catch(|| match how {
        0 => deep(serde_json::Deserializer::from_str(&serde_json::to_string(x).unwrap())),
        1 => serde_json::from_value(serde_json::to_value(x).unwrap()).unwrap(),
        2 => bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap(),
        _ => deep(serde_json::Deserializer::from_slice(&serde_json::to_vec_pretty(x).unwrap())),
    })
    .map_err(|p| format!("serialising and reading back fails: {p}"))
}

pub fn round_trip<N: Trie + Serialize + DeserializeOwned>(m: &M, warm: usize, keys: &[Key], cov: &mut Cov) -> Case {
    let map: Map = m.entries().into_iter().collect();
    let what = ["nothing hashed", "hashed", "one child hashed", "hashed and then changed"][warm];
    let err = |w: String| Fail(format!("{} {} ({what}): {w}", N::NAME, map_str(&map)));
    let mut t: N = make(m);
    let mut m = m.clone();
    match warm {
        1 => warm_up(&t),
        2 => {
            if let Node::Branch { children, .. } = &*t {
                let _ = catch(|| children.iter().map(|c| c.hash()).collect::<Vec<_>>());
            } else if let Node::Extension { child, .. } = &*t {
                let _ = catch(|| child.hash());
            }
        }
        3 => {
            warm_up(&t);
            for k in keys {
                let _ = apply(&mut t, &Op::Ins(k.clone(), v(34, 0x66)));
                break;
            }
            m = read::<N>(&t).map_err(err)?;
        }
        _ => {}
    }
    let map: Map = m.entries().into_iter().collect();
    let root = m.root();
    for how in 0..4 {
        let u = reread(&t, how).map_err(err)?;
        cov.transitions += 1;
        if read::<N>(&u).map_err(err)? != m {
            return Err(err(format!("read back as {:?}", read::<N>(&u))));
        }
        if u != t || t != u {
            return Err(err("not equal to the original".into()));
        }
        if how == 0 {
            // Go on with it: every update and then the hash.
            for k in keys {
                for op in [Op::Ins(k.clone(), v(37, 0x55)), Op::Del(k.clone())] {
                    let (mut a, mut b) = (t.clone(), reread(&t, 2).map_err(err)?);
                    let (ra, rb) = (apply(&mut a, &op), apply(&mut b, &op));
                    cov.transitions += 1;
                    if ra.clone().ok() != rb.clone().ok() || ra.is_ok() != rb.is_ok() || read::<N>(&a) != read::<N>(&b) {
                        return Err(err(format!("{} gives {ra:?}, when read back {rb:?}", op.text())));
                    }
                    let h = read::<N>(&b).map_err(err)?.root();
                    check_hash(&b, &h).map_err(|w| err(format!("{} when read back: {w}", op.text())))?;
                    cov.kind("continued");
                }
            }
        }
        check_gets(&u, &map, keys).map_err(err)?;
        check_iter(&u, &map).map_err(err)?;
        check_hash(&u, &root).map_err(err)?;
        // And once more, now that it is hashed.
        let w = reread(&u, how).map_err(err)?;
        if w != t {
            return Err(err("not equal to the original after a second round trip".into()));
        }
        check_hash(&w, &root).map_err(err)?;
    }
    // The bare node as well.
    let n: Node<N> = reread(&*t, 0).map_err(err)?;
    if n != *t || read::<N>(&n).map_err(err)? != m {
        return Err(err("the node is not equal to the original".into()));
    }
    check_hash(&t, &root).map_err(err)?;
    cov.traces += 1;
    cov.kind(if map.values().any(|e| matches!(e, Ent::Hash(_))) { "with hash nodes" } else { "without hash nodes" });
    Ok(())
}

pub fn c18() -> ! {
    let th = run().thorough;
    for p in pools(if th { 2 } else { 1 }) {
        let keys = if th || p.len() <= 300 { &p.keys[..] } else { &p.keys[..2] };
        let l = p.tries(true, if th { usize::MAX } else { 1400 });
        scope(&format!("tries-{}", p.name), l.len() as u64, |i, cov| {
            let m = &l[i as usize];
            cov.states += 1;
            for warm in 0..4 {
                round_trip::<Hpt>(m, warm, keys, cov)?;
            }
            round_trip::<Std>(m, 0, keys, cov)?;
            sample(|| format!("{} in 4 cache states", map_str(&m.entries().into_iter().collect())));
            Ok(())
        });
    }
    scope("values", 300, |i, cov| {
        for e in [v(1 + i as usize, 0), v(1 + i as usize, 0xff)] {
            let m = build(&[(vec![1, 2], e.clone()), (vec![1], e.clone()), (vec![2], v(1, 1))].into_iter().collect());
            cov.states += 1;
            round_trip::<Hpt>(&m, 1, &[], cov)?;
            round_trip::<Std>(&m, 0, &[], cov)?;
        }
        Ok(())
    });
    let p = pattern();
    scope("nibbles", 65, |i, cov| {
        let n = i as usize;
        let mut ks = vec![vec![0; n], vec![15; n], p[..n].to_vec()];
        for j in 0..n {
            ks.push(flip(&vec![0; n], j, 1 + (j % 15) as u8));
            ks.push(flip(&vec![15; n], j, 15));
        }
        for k in ks {
            for how in 0..4 {
                let r: Nibbles = reread(&nib(&k), how).map_err(|w| Fail(format!("{}: {w}", key_str(&k))))?;
                cov.transitions += 1;
                if r != nib(&k) || unnib(&r) != Ok(k.clone()) {
                    return Err(Fail(format!("the key {} is read back as {r:?}", key_str(&k))));
                }
            }
            cov.states += 1;
            cov.traces += 1;
            cov.kind("key");
        }
        Ok(())
    });
    crate::large::c18();
    crate::odd::serialised();
    finish(&["large", "opaque", "continued", "with hash nodes", "without hash nodes", "key"]);
}
