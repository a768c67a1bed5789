//! C14-C16: nibble sequences, conversions and the hex-prefix encoding.

use std::{
    cmp::Ordering,
    collections::HashMap,
    fmt::Debug,
    hash::{Hash, Hasher},
    str::FromStr,
};

use eth_trie_utils::nibbles::{Nibbles, ToNibbles};
use ethereum_types::{H256, U128, U256, U512};

use crate::{engine::*, model::*, real::*, spaces::*};

fn txt(k: &[u8]) -> String {
    key_str(k)
}

/// Patterns of a given length that exercise zeros, carries and boundaries.
fn patterns(n: usize) -> Vec<Key> {
    let p = pattern();
    let mut out = vec![
        vec![0; n],
        vec![15; n],
        p[..n].to_vec(),
        (0..n).map(|i| (i % 16) as u8).collect(),
        (0..n).map(|i| if i % 2 == 0 { 0 } else { 15 }).collect(),
        (0..n).map(|i| if i % 2 == 0 { 15 } else { 0 }).collect(),
        (0..n).map(|i| if i < n / 2 { 0 } else { 9 }).collect(),
        (0..n).map(|i| if i < n / 2 { 8 } else { 0 }).collect(),
    ];
    out.dedup();
    out
}

/// All patterns of all lengths, and a single non-zero (or zero) nibble at
/// every place of every length.
fn long_keys() -> Vec<Key> {
    let mut out = vec![];
    for n in 0..=64 {
        out.extend(patterns(n));
        for i in 0..n {
            let mut a = vec![0; n];
            a[i] = 1 + (i % 15) as u8;
            out.push(a);
        }
        if n % 16 <= 1 || n % 16 == 15 {
            for i in 0..n {
                let mut a = vec![15; n];
                a[i] = 0;
                out.push(a);
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn short_keys(th: bool) -> Vec<Key> {
    let all: Vec<u8> = (0..16).collect();
    let mut out = strings(&all, 0, if th { 4 } else { 3 });
    out.extend(strings(&[0, 1, 15], 4, if th { 7 } else { 5 }));
    out
}

/// Compares a result with what the list operation gives, `None` meaning that
/// it has to panic.
fn same<T: PartialEq + Debug>(what: impl Fn() -> String, got: Result<T, String>, want: Option<T>, cov: &mut Cov) -> Case {
    cov.transitions += 1;
    match (got, want) {
        (Ok(g), Some(w)) if g == w => {
            cov.kind("value");
            Ok(())
        }
        (Err(_), None) => {
            cov.kind("out of range");
            Ok(())
        }
        (Ok(g), w) => Err(Fail(format!("{} gives {g:?}, expected {}", what(), w.map_or("a panic".into(), |w| format!("{w:?}"))))),
        (Err(p), Some(w)) => Err(Fail(format!("{} panics ({p}), expected {w:?}", what()))),
    }
}

/// Runs an operation, reading the resulting sequence back.
fn seq(f: impl FnOnce() -> Nibbles) -> Result<Result<Key, String>, String> {
    catch(|| unnib(&f()))
}

fn ok(k: &[u8]) -> Option<Result<Key, String>> {
    Some(Ok(k.to_vec()))
}

fn single(k: &Key, ranges: bool, cov: &mut Cov) -> Case {
    let n = k.len();
    let a = nib(k);
    let t = |op: &str, x: String| {
        let k = k.clone();
        let op = op.to_string();
        move || format!("{}.{op}({x})", txt(&k))
    };
    let some = |c: bool| if c { Some(()) } else { None };
    same(t("is_empty", "".into()), catch(|| a.is_empty()), Some(n == 0), cov)?;
    let mut rev = k.clone();
    rev.reverse();
    same(t("reverse", "".into()), seq(|| a.reverse()), ok(&rev), cov)?;
    for i in (0..=n + 2).chain([64, 65, 127, 128, 1000, usize::MAX / 8, usize::MAX]) {
        let x = || i.to_string();
        same(t("get_nibble", x()), catch(|| a.get_nibble(i)), k.get(i).copied(), cov)?;
        let inside = i <= n;
        let cut = i.min(n);
        same(t("get_next_nibbles", x()), seq(|| a.get_next_nibbles(i)), some(inside).map(|_| Ok(k[..i].to_vec())), cov)?;
        let pop = |f: fn(&mut Nibbles, usize) -> Nibbles| {
            catch(|| {
                let mut b = a;
                let r = f(&mut b, i);
                (unnib(&r), unnib(&b))
            })
        };
        same(
            t("pop_nibbles_front", x()),
            pop(Nibbles::pop_nibbles_front),
            some(inside).map(|_| (Ok(k[..i].to_vec()), Ok(k[i..].to_vec()))),
            cov,
        )?;
        // The nibbles come out in the order in which they are popped.
        same(
            t("pop_nibbles_back", x()),
            pop(Nibbles::pop_nibbles_back),
            some(inside).map(|_| (Ok(k[n - i..].iter().rev().copied().collect()), Ok(k[..n - i].to_vec()))),
            cov,
        )?;
        same(t("truncate_n_nibbles_front", x()), seq(|| a.truncate_n_nibbles_front(i)), ok(&k[cut..]), cov)?;
        same(t("truncate_n_nibbles_back", x()), seq(|| a.truncate_n_nibbles_back(i)), ok(&k[..n - cut]), cov)?;
        let tr = |f: fn(&mut Nibbles, usize)| {
            seq(|| {
                let mut b = a;
                f(&mut b, i);
                b
            })
        };
        same(t("truncate_n_nibbles_front_mut", x()), tr(Nibbles::truncate_n_nibbles_front_mut), ok(&k[cut..]), cov)?;
        same(t("truncate_n_nibbles_back_mut", x()), tr(Nibbles::truncate_n_nibbles_back_mut), ok(&k[..n - cut]), cov)?;
        same(
            t("split_at_idx", x()),
            catch(|| {
                let (p, q) = a.split_at_idx(i);
                (unnib(&p), unnib(&q))
            }),
            some(inside).map(|_| (Ok(k[..i].to_vec()), Ok(k[i..].to_vec()))),
            cov,
        )?;
        same(t("split_at_idx_prefix", x()), seq(|| a.split_at_idx_prefix(i)), some(inside).map(|_| Ok(k[..i].to_vec())), cov)?;
        same(t("split_at_idx_postfix", x()), seq(|| a.split_at_idx_postfix(i)), some(inside).map(|_| Ok(k[i..].to_vec())), cov)?;
    }
    for (name, f, want) in [
        ("pop_next_nibble_front", Nibbles::pop_next_nibble_front as fn(&mut Nibbles) -> u8, k.split_first().map(|(x, r)| (*x, Ok(r.to_vec())))),
        ("pop_next_nibble_back", Nibbles::pop_next_nibble_back as fn(&mut Nibbles) -> u8, k.split_last().map(|(x, r)| (*x, Ok(r.to_vec())))),
    ] {
        let got = catch(|| {
            let mut b = a;
            let r = f(&mut b);
            (r, unnib(&b))
        });
        same(t(name, "".into()), got, want, cov)?;
    }
    for x in (0..=16u8).chain([31, 128, 255]) {
        let fits = some(x < 16 && n < 64);
        let back = fits.map(|_| Ok(cat(k, &[x])));
        let front = fits.map(|_| Ok(cat(&[x], k)));
        let push = |f: fn(&mut Nibbles, u8)| {
            seq(|| {
                let mut b = a;
                f(&mut b, x);
                b
            })
        };
        same(t("push_nibble_back", x.to_string()), push(Nibbles::push_nibble_back), back.clone(), cov)?;
        same(t("push_nibble_front", x.to_string()), push(Nibbles::push_nibble_front), front, cov)?;
        same(t("merge_nibble", x.to_string()), seq(|| a.merge_nibble(x)), back, cov)?;
        if n == 0 {
            same(t("from_nibble", x.to_string()), seq(|| Nibbles::from_nibble(x)), some(x < 16).map(|_| Ok(vec![x])), cov)?;
        }
    }
    if ranges {
        for lo in 0..=n + 2 {
            for hi in 0..=n + 2 {
                let want = some(lo <= hi && hi <= n).map(|_| Ok(k[lo..hi].to_vec()));
                same(t("get_nibble_range", format!("{lo}..{hi}")), seq(|| a.get_nibble_range(lo..hi)), want, cov)?;
            }
        }
    }
    cov.states += 1;
    Ok(())
}

fn pair(k: &Key, l: &Key, cov: &mut Cov) -> Case {
    let (a, b) = (nib(k), nib(l));
    let t = |op: &str| {
        let op = op.to_string();
        move || format!("{op} of {} and {}", txt(k), txt(l))
    };
    let fits = k.len() + l.len() <= 64;
    let merged = if fits { ok(&cat(k, l)) } else { None };
    same(t("merge_nibbles"), seq(|| a.merge_nibbles(&b)), merged, cov)?;
    let pushed = if fits { ok(&cat(l, k)) } else { None };
    let got = seq(|| {
        let mut c = a;
        c.push_nibbles_front(&b);
        c
    });
    same(t("push_nibbles_front"), got, pushed, cov)?;
    let m = k.len().min(l.len());
    let at = (0..m).find(|i| k[*i] != l[*i]);
    same(t("nibbles_are_identical_up_to_smallest_count"), catch(|| a.nibbles_are_identical_up_to_smallest_count(&b)), Some(at.is_none()), cov)?;
    let f = Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths;
    same(t("find_nibble_idx (different lengths)"), catch(|| f(&a, &b)), Some(at.unwrap_or(m)), cov)?;
    let f = Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths;
    let want = if k.len() == l.len() { Some(at.unwrap_or(m)) } else { None };
    same(t("find_nibble_idx (equal lengths)"), catch(|| f(&a, &b)), want, cov)?;
    same(t("equality"), catch(|| a == b), Some(k == l), cov)?;
    // Any total order and any hash will do, as long as they agree with equality.
    let digest = |n: &Nibbles| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        n.hash(&mut h);
        h.finish()
    };
    let consistent = || {
        let o = a.cmp(&b);
        (o == Ordering::Equal) == (a == b) && b.cmp(&a) == o.reverse() && a.partial_cmp(&b) == Some(o) && (a != b || digest(&a) == digest(&b))
    };
    same(t("agreement of equality, order and hash"), catch(consistent), Some(true), cov)?;
    cov.states += 1;
    Ok(())
}

/// One step of a history: the list operation, and the operation itself.
/// `None` for the list means that the operation has to panic.
fn hist_op(j: usize, k: &Key, a: &Nibbles) -> (&'static str, Option<Key>, Result<Nibbles, String>) {
    let n = k.len();
    let m = |f: &dyn Fn(&mut Nibbles)| {
        catch(|| {
            let mut b = *a;
            f(&mut b);
            b
        })
    };
    let room = n < 64;
    let five = vec![0, 15, 0, 8, 0];
    match j {
        0 => ("push back 0", room.then(|| cat(k, &[0])), m(&|b| b.push_nibble_back(0))),
        1 => ("push back f", room.then(|| cat(k, &[15])), m(&|b| b.push_nibble_back(15))),
        2 => ("push front 0", room.then(|| cat(&[0], k)), m(&|b| b.push_nibble_front(0))),
        3 => ("push front f", room.then(|| cat(&[15], k)), m(&|b| b.push_nibble_front(15))),
        4 => ("pop front", (n > 0).then(|| k[1..].to_vec()), m(&|b| {
            b.pop_next_nibble_front();
        })),
        5 => ("pop back", (n > 0).then(|| k[..n - 1].to_vec()), m(&|b| {
            b.pop_next_nibble_back();
        })),
        6 => ("reverse", Some(k.iter().rev().copied().collect()), catch(|| a.reverse())),
        7 => ("truncate front 3", Some(k[n.min(3)..].to_vec()), m(&|b| b.truncate_n_nibbles_front_mut(3))),
        8 => ("truncate back 3", Some(k[..n - n.min(3)].to_vec()), m(&|b| b.truncate_n_nibbles_back_mut(3))),
        9 => ("merge 0f080", (n + 5 <= 64).then(|| cat(k, &five)), catch(|| a.merge_nibbles(&nib(&five)))),
        10 => ("push front 0f080", (n + 5 <= 64).then(|| cat(&five, k)), m(&|b| b.push_nibbles_front(&nib(&five)))),
        11 => ("pop front 2", (n >= 2).then(|| k[2..].to_vec()), m(&|b| {
            b.pop_nibbles_front(2);
        })),
        12 => ("pop back 2", (n >= 2).then(|| k[..n - 2].to_vec()), m(&|b| {
            b.pop_nibbles_back(2);
        })),
        _ => ("second half", Some(k[n / 2..].to_vec()), catch(|| a.split_at_idx_postfix(k.len() / 2))),
    }
}

fn histories(k: &Key, a: &Nibbles, depth: usize, hist: &mut Vec<&'static str>, start: &Key, cov: &mut Cov) -> Case {
    if depth == 0 {
        cov.traces += 1;
        return Ok(());
    }
    for j in 0..14 {
        let (name, want, got) = hist_op(j, k, a);
        hist.push(name);
        let what = || format!("{} after {}", txt(start), hist.join(", "));
        same(what, got.clone().map(|x| unnib(&x)), want.clone().map(Ok), cov)?;
        if let (Some(w), Ok(g)) = (want, got) {
            // Equality and hashing see the same sequence.
            same(what, catch(|| g == nib(&w)), Some(true), cov)?;
            histories(&w, &g, depth - 1, hist, start, cov)?;
        }
        hist.pop();
    }
    Ok(())
}

pub fn c14() -> ! {
    let th = run().thorough;
    let short = short_keys(th);
    scope("short", short.len() as u64, |i, cov| {
        sample(|| format!("all operations on {}", txt(&short[i as usize])));
        single(&short[i as usize], true, cov)
    });
    let long = long_keys();
    scope("long", long.len() as u64, |i, cov| {
        sample(|| format!("all operations on {}", txt(&long[i as usize])));
        let k = &long[i as usize];
        single(k, th || k.iter().filter(|n| **n != 0).count() != 1, cov)
    });
    let small = strings(&[0, 1, 15], 0, if th { 5 } else { 4 });
    scope("pairs-short", (small.len() * small.len()) as u64, |i, cov| {
        let n = small.len() as u64;
        pair(&small[(i / n) as usize], &small[(i % n) as usize], cov)
    });
    // All lengths, differing at every place.
    scope("pairs-long", 65 * 65, |i, cov| {
        let (n, m) = ((i / 65) as usize, (i % 65) as usize);
        for (a, b) in patterns(n).iter().zip(patterns(m)) {
            pair(a, &b, cov)?;
            for j in 0..n.min(m) {
                pair(a, &flip(&b, j, 1 + (j % 15) as u8), cov)?;
            }
            if th {
                for c in patterns(m) {
                    pair(a, &c, cov)?;
                }
            }
        }
        for (a, b) in patterns(n).iter().zip(patterns(m).iter().skip(1)) {
            pair(a, b, cov)?;
        }
        Ok(())
    });
    // Histories of operations on one sequence.
    let starts: Vec<Key> = [0usize, 1, 15, 16, 31, 32, 47, 48, 63, 64].iter().flat_map(|n| patterns(*n).into_iter().take(3)).collect();
    scope("histories", starts.len() as u64 * 14, |i, cov| {
        let k = &starts[i as usize / 14];
        let (name, want, got) = hist_op(i as usize % 14, k, &nib(k));
        let what = || format!("{} after {name}", txt(k));
        same(what, got.clone().map(|x| unnib(&x)), want.clone().map(Ok), cov)?;
        match (want, got) {
            (Some(w), Ok(g)) => histories(&w, &g, if th { 4 } else { 3 }, &mut vec![name], k, cov),
            _ => Ok(()),
        }
    });
    finish(&["value", "out of range"]);
}

// ------------------------------------------------------------------------ C15

fn digits_of(k: &[u8], upper: bool) -> String {
    k.iter().map(|n| char::from_digit(*n as u32, 16).unwrap()).map(|c| if upper { c.to_ascii_uppercase() } else { c }).collect()
}

/// The nibbles of a number given as big-endian bytes.
fn number(be: &[u8]) -> Key {
    bytes_to_nibbles(be).into_iter().skip_while(|n| *n == 0).collect()
}

fn bytes_to_nibbles(b: &[u8]) -> Key {
    b.iter().flat_map(|x| [x >> 4, x & 15]).collect()
}

fn int<T: ToNibbles + Copy + Debug>(x: T, be: &[u8], cov: &mut Cov) -> Case {
    let want = number(be);
    let t = |what: &'static str| move || format!("{what} of the {}-bit integer {x:?}", be.len() * 8);
    same(t("to_nibbles"), seq(|| x.to_nibbles()), ok(&want), cov)?;
    same(t("Nibbles::from"), seq(|| Nibbles::from(x)), ok(&want), cov)?;
    let padded = if want.len() % 2 == 1 { cat(&[0], &want) } else { want };
    same(t("to_nibbles_byte_padded"), seq(|| x.to_nibbles_byte_padded()), ok(&padded), cov)?;
    cov.states += 1;
    cov.kind("integer");
    Ok(())
}

/// Values of a width that reach every bit and every carry.
fn boundary_values(bits: usize) -> Vec<Vec<u8>> {
    let n = bits / 8;
    let mut out = vec![vec![0; n], vec![0xff; n], (1..=n as u8).collect(), (1..=n as u8).rev().collect()];
    for b in 0..bits {
        let mut one = vec![0u8; n];
        one[n - 1 - b / 8] = 1 << (b % 8);
        // 2^b - 1
        let mut ones = vec![0u8; n];
        for c in 0..b {
            ones[n - 1 - c / 8] |= 1 << (c % 8);
        }
        let mut plus = one.clone();
        plus[n - 1] |= 1;
        let not: Vec<u8> = one.iter().map(|x| !x).collect();
        out.extend([one, ones, plus, not]);
    }
    let p = pattern();
    for l in 1..=n {
        let mut x = vec![0u8; n];
        for i in 0..l {
            x[n - l + i] = p[2 * (i % 32)] << 4 | p[2 * (i % 32) + 1];
        }
        out.push(x);
    }
    out.sort();
    out.dedup();
    out
}

fn ints(cov_scope: &str) {
    scope(&format!("{cov_scope}-u8-u16"), 65536, |i, cov| {
        if i < 256 {
            int(i as u8, &[i as u8], cov)?;
        }
        int(i as u16, &(i as u16).to_be_bytes(), cov)
    });
    // Every 16-bit window of the wider types.
    scope(&format!("{cov_scope}-windows"), 65536, |w, cov| {
        for s in [0, 4, 8, 16] {
            int((w as u32) << s, &((w as u32) << s).to_be_bytes(), cov)?;
        }
        for s in (0..=48).step_by(4) {
            int(w << s, &(w << s).to_be_bytes(), cov)?;
        }
        Ok(())
    });
    for bits in [32usize, 64, 128, 256] {
        let vs = boundary_values(bits);
        scope(&format!("{cov_scope}-{bits}"), vs.len() as u64, |i, cov| {
            let b = &vs[i as usize];
            sample(|| format!("{bits}-bit integer 0x{}", hex(b)));
            match bits {
                32 => int(u32::from_be_bytes(b[..].try_into().unwrap()), b, cov)?,
                64 => int(u64::from_be_bytes(b[..].try_into().unwrap()), b, cov)?,
                128 => int(U128::from_big_endian(b), b, cov)?,
                _ => {
                    int(U256::from_big_endian(b), b, cov)?;
                    let mut wide = vec![0; 32];
                    wide.extend(b);
                    int(U512::from_big_endian(b), &wide, cov)?;
                }
            }
            Ok(())
        });
    }
}

/// A key to bytes, text and numbers, and back.
fn out_and_back(k: &Key, cov: &mut Cov) -> Case {
    let a = nib(k);
    let t = |op: &'static str| move || format!("{op} of {}", txt(k));
    let (lo, up) = (format!("0x{}", digits_of(k, false)), format!("0x{}", digits_of(k, true)));
    same(t("Display"), catch(|| a.to_string()), Some(lo.clone()), cov)?;
    same(t("LowerHex"), catch(|| format!("{a:x}")), Some(lo.clone()), cov)?;
    same(t("UpperHex"), catch(|| format!("{a:X}")), Some(up.clone()), cov)?;
    same(t("Debug"), catch(|| format!("{a:?}").contains(&lo[2..])), Some(true), cov)?;
    for s in [&lo[..], &up[..], &lo[2..], &up[2..]] {
        let got = catch(|| Nibbles::from_str(s).map(|n| unnib(&n)).map_err(|e| e.to_string()));
        same(|| format!("parsing {s:?}"), got, Some(Ok(Ok(k.clone()))), cov)?;
    }
    let even = if k.len() % 2 == 1 { cat(&[0], k) } else { k.clone() };
    let bytes: Vec<u8> = even.chunks(2).map(|c| c[0] << 4 | c[1]).collect();
    same(t("bytes_be"), catch(|| a.bytes_be()), Some(bytes.clone()), cov)?;
    same(t("min_bytes"), catch(|| a.min_bytes()), Some(bytes.len()), cov)?;
    same(t("try_into_u256"), catch(|| a.try_into_u256()), Some(Ok(U256::from_big_endian(&bytes))), cov)?;
    let sig = k.iter().position(|n| *n != 0).map_or(0, |p| k.len() - p);
    same(t("get_num_nibbles_in_key"), catch(|| Nibbles::get_num_nibbles_in_key(&a.packed)), Some(sig), cov)?;
    cov.states += 1;
    cov.traces += 1;
    cov.kind("key");
    Ok(())
}

fn from_bytes(b: &[u8], cov: &mut Cov) -> Case {
    for le in [false, true] {
        let got = catch(|| {
            if le { Nibbles::from_bytes_le(b) } else { Nibbles::from_bytes_be(b) }.map(|n| unnib(&n)).map_err(|_| ())
        });
        let what = || format!("from_bytes_{} of the {} bytes {}", if le { "le" } else { "be" }, b.len(), hex(b));
        if b.len() == 33 {
            // One byte more than a key can have: only that it does not panic.
            let _ = got.map_err(|p| Fail(format!("{} panics: {p}", what())))?;
            continue;
        }
        let mut be = b.to_vec();
        if le {
            be.reverse();
        }
        let bad = b.is_empty() || b.len() > 33;
        same(what, got, Some(if bad { Err(()) } else { Ok(Ok(bytes_to_nibbles(&be))) }), cov)?;
        if !bad && !le {
            let back = catch(|| Nibbles::from_bytes_be(b).unwrap().bytes_be());
            same(|| format!("bytes_be after {}", what()), back, Some(b.to_vec()), cov)?;
        }
        if b.len() == 32 {
            let h = H256::from_slice(b);
            let got = seq(|| if le { Nibbles::from_h256_le(h) } else { Nibbles::from_h256_be(h) });
            same(|| format!("from_h256_{} of {}", if le { "le" } else { "be" }, hex(b)), got, ok(&bytes_to_nibbles(&be)), cov)?;
            cov.kind("hash");
        }
        cov.kind(if bad { "bad length" } else { "bytes" });
    }
    cov.states += 1;
    cov.traces += 1;
    Ok(())
}

/// What a text denotes, if anything.
fn denotes(s: &str) -> Option<Key> {
    let d = s.strip_prefix("0x").unwrap_or(s);
    d.chars().map(|c| if c.is_ascii() { c.to_digit(16).map(|x| x as u8) } else { None }).collect()
}

fn parse(s: &str, cov: &mut Cov) -> Case {
    let got = catch(|| Nibbles::from_str(s).map(|n| unnib(&n)).map_err(|_| ()));
    let want = denotes(s);
    cov.states += 1;
    let long = want.as_ref().is_some_and(|k| k.len() > 64);
    if long {
        // Not supported: an error or the exact digits, but nothing else.
        cov.transitions += 1;
        cov.kind("long text");
        return match got {
            Ok(Err(())) => Ok(()),
            Ok(Ok(Ok(k))) if Some(&k) == want.as_ref() => Ok(()),
            g => Err(Fail(format!("parsing {s:?} gives {g:?}"))),
        };
    }
    cov.kind(if want.is_some() { "text" } else { "malformed text" });
    same(|| format!("parsing {s:?}"), got, Some(want.map(Ok).ok_or(())), cov)
}

pub fn c15() -> ! {
    let th = run().thorough;
    ints("int");
    let keys: Vec<Key> = short_keys(true).into_iter().chain(long_keys()).collect();
    scope("out-and-back", keys.len() as u64, |i, cov| out_and_back(&keys[i as usize], cov));
    scope("bytes12", 65536 + 256, |i, cov| {
        if i < 256 {
            from_bytes(&[i as u8], cov)
        } else {
            from_bytes(&((i - 256) as u16).to_be_bytes(), cov)
        }
    });
    scope("bytes", 80, |i, cov| {
        let n = i as usize;
        if n <= 40 || n == 64 || n == 65 || n == 79 {
            for p in [vec![0u8; n], vec![0xff; n], (1..=n as u8).collect(), (0..n as u8).rev().collect()] {
                from_bytes(&p, cov)?;
            }
            for j in 0..8 * n.min(40) {
                let mut p = vec![0u8; n];
                p[j / 8] = 1 << (j % 8);
                from_bytes(&p, cov)?;
            }
        }
        Ok(())
    });
    let alpha: Vec<char> = "019afAFgx -_+.é".chars().collect();
    let n = alpha.len() as u64;
    for len in 0..=if th { 6 } else { 5 } {
        scope(&format!("text{len}"), n.pow(len), |mut i, cov| {
            let mut s = String::new();
            for _ in 0..len {
                s.push(alpha[(i % n) as usize]);
                i /= n;
            }
            parse(&s, cov)?;
            parse(&format!("0x{s}"), cov)?;
            parse(&format!("0X{s}"), cov)
        });
    }
    scope("text-long", 140, |i, cov| {
        let n = i as usize;
        for d in ["0", "1", "f", "F", "00000001", "123456789abcdef"] {
            let s: String = d.chars().cycle().take(n).collect();
            parse(&s, cov)?;
            parse(&format!("0x{s}"), cov)?;
            // A malformed digit at every place.
            for j in 0..n.min(70) {
                for bad in ["g", " ", "x", "é"] {
                    parse(&format!("{}{bad}{}", &s[..j], &s[j + 1..]), cov)?;
                }
            }
        }
        Ok(())
    });
    finish(&["integer", "key", "bytes", "bad length", "hash", "text", "malformed text"]);
}

// ------------------------------------------------------------------------ C16

pub fn c16() -> ! {
    let mut keys: Vec<Key> = short_keys(true).into_iter().chain(long_keys()).collect();
    if run().thorough {
        keys.extend(strings(&(0..16).collect::<Vec<u8>>(), 5, 5));
    }
    scope("encode", keys.len() as u64, |i, cov| {
        let k = &keys[i as usize];
        for leaf in [false, true] {
            let want = hex_prefix(k, leaf);
            let got = catch(|| nib(k).to_hex_prefix_encoding(leaf).to_vec());
            same(|| format!("hex-prefix encoding of {} (leaf: {leaf})", txt(k)), got, Some(want.clone()), cov)?;
            cov.kind("encoded");
            let back = catch(|| Nibbles::from_hex_prefix_encoding(&want).map(|n| unnib(&n)).map_err(|_| ()));
            let what = || format!("decoding {} (of {}, leaf: {leaf})", hex(&want), txt(k));
            if !leaf {
                same(what, back, Some(Ok(Ok(k.clone()))), cov)?;
                cov.kind("decoded extension");
            } else if k.len() <= 62 {
                same(what, back, Some(Ok(Ok(cat(k, &[1, 0])))), cov)?;
                cov.kind("decoded leaf");
            } else {
                let _ = back.map_err(|p| Fail(format!("{} panics: {p}", what())))?;
            }
        }
        cov.states += 1;
        cov.traces += 1;
        sample(|| format!("{} as {} and {}", txt(k), hex(&hex_prefix(k, false)), hex(&hex_prefix(k, true))));
        Ok(())
    });
    // Distinct (sequence, flag) pairs have distinct encodings.
    scope("injective", 1, |_, cov| {
        let mut seen: HashMap<Vec<u8>, (Key, bool)> = HashMap::new();
        for k in &keys {
            for leaf in [false, true] {
                let e = catch(|| nib(k).to_hex_prefix_encoding(leaf).to_vec()).map_err(|p| format!("{} panics: {p}", txt(k)))?;
                cov.transitions += 1;
                if let Some(o) = seen.insert(e, (k.clone(), leaf)) {
                    if o != (k.clone(), leaf) {
                        return Err(Fail(format!("{} and {:?} have the same encoding", txt(k), o)));
                    }
                }
            }
        }
        Ok(())
    });
    let decode = |b: &[u8], cov: &mut Cov| -> Case {
        let got = catch(|| Nibbles::from_hex_prefix_encoding(b).map(|n| unnib(&n)).map_err(|_| ()));
        cov.transitions += 1;
        cov.states += 1;
        let what = || format!("decoding the {} bytes {}", b.len(), hex(b));
        let got = got.map_err(|p| Fail(format!("{} panics: {p}", what())))?;
        if b.is_empty() || b.len() > 33 || b[0] >> 4 > 3 {
            cov.kind(if b.is_empty() {
                "empty"
            } else if b.len() > 33 {
                "too long"
            } else {
                "invalid flags"
            });
            if got != Err(()) {
                return Err(Fail(format!("{} gives {got:?}, expected an error", what())));
            }
            return Ok(());
        }
        let (odd, leaf) = (b[0] >> 4 & 1 == 1, b[0] >> 4 & 2 == 2);
        if !odd && b[0] & 15 != 0 {
            return Ok(()); // not an encoding of anything; it did not panic
        }
        let k = if odd { cat(&[b[0] & 15], &bytes_to_nibbles(&b[1..])) } else { bytes_to_nibbles(&b[1..]) };
        let want = if leaf { cat(&k, &[1, 0]) } else { k.clone() };
        if leaf && k.len() > 62 {
            return Ok(());
        }
        cov.traces += 1;
        if got != Ok(Ok(want.clone())) {
            return Err(Fail(format!("{} gives {got:?}, expected {}", what(), txt(&want))));
        }
        Ok(())
    };
    scope("decode-short", 65536 + 257, |i, cov| match i {
        0 => decode(&[], cov),
        1..=256 => decode(&[(i - 1) as u8], cov),
        _ => decode(&((i - 257) as u16).to_be_bytes(), cov),
    });
    scope("decode-long", 256 * 70, |i, cov| {
        let (first, n) = ((i % 256) as u8, 1 + (i / 256) as usize);
        for rest in [vec![0u8; n - 1], vec![0xff; n - 1], (1..n as u8).collect(), vec![0x10; n - 1]] {
            decode(&cat(&[first], &rest), cov)?;
        }
        Ok(())
    });
    {
        scope("decode-3", 1 << 24, |i, cov| decode(&(i as u32).to_be_bytes()[1..], cov));
    }
    finish(&["encoded", "decoded extension", "decoded leaf", "invalid flags", "too long", "empty"]);
}
