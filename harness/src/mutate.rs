//! Mutators: raw octets and element trees (which keep enclosing lengths consistent).

use crate::enc::{self, T};
use crate::gen::Gen;

fn nth<'a>(ts: &'a mut Vec<T>, n: &mut usize) -> Option<(&'a mut Vec<T>, usize)> {
    for i in 0..ts.len() {
        if *n == 0 {
            return Some((ts, i));
        }
        *n -= 1;
        let has = matches!(ts[i], T::C(..) | T::Forged(..));
        if has {
            let c = ts[i].count() - 1;
            if *n < c {
                return match &mut ts[i] {
                    T::C(_, _, k) | T::Forged(_, _, k) => nth(k, n),
                    _ => None,
                };
            }
            *n -= c;
        }
    }
    None
}

/// the node with preorder index n: its sibling list and position in it
pub fn locate(ts: &mut Vec<T>, mut n: usize) -> Option<(&mut Vec<T>, usize)> {
    nth(ts, &mut n)
}

pub const OPS: usize = 26;

/// one structural edit at node n; false if it does not apply
pub fn edit(ts: &mut Vec<T>, n: usize, op: usize, g: &mut Gen) -> bool {
    let donor = {
        let total = enc::count_all(ts);
        let k = g.rng.below(total);
        locate(ts, k).map(|(v, i)| v[i].clone())
    };
    let Some((sib, i)) = locate(ts, n) else { return false };
    let junk = match g.rng.below(4) {
        0 => T::P(5, vec![]),
        1 => g.any_primitive(),
        2 => donor.clone().unwrap(),
        _ => {
            let k = g.rng.range(1, 3);
            T::Raw(g.rng.bytes(k))
        }
    };
    match op {
        0 => {
            sib.remove(i);
        }
        1 => {
            let t = sib[i].clone();
            sib.insert(i, t);
        }
        2 => {
            if i + 1 >= sib.len() {
                return false;
            }
            sib.swap(i, i + 1);
        }
        3 => sib.insert(i, junk),
        4 => sib.insert(i + 1, junk),
        5 => sib[i] = donor.unwrap(),
        6 => match &mut sib[i] {
            T::P(id, _) | T::C(id, _, _) | T::Forged(id, _, _) => {
                *id = match g.rng.below(4) {
                    0 => *id ^ 0x20,
                    1 => *id ^ (1 << g.rng.below(8)),
                    2 => g.rng.pick(&crate::der_ref::KINDS).id_octet(),
                    _ => g.rng.byte(),
                }
            }
            T::Raw(_) => return false,
        },
        7 => match &mut sib[i] {
            // contents: flip, insert, delete, truncate
            T::P(_, c) | T::Raw(c) | T::C(_, c, _) => raw_edit(c, g),
            _ => return false,
        },
        8 => {
            // contents replaced by borderline contents of its kind
            match &mut sib[i] {
                T::P(id, c) => match crate::der_ref::identify(*id) {
                    Some((k, _)) => *c = g.odd_contents(k),
                    None => return false,
                },
                _ => return false,
            }
        }
        9 => {
            // forged length
            let body = match sib[i].clone() {
                T::P(id, c) => (id, vec![T::Raw(c)]),
                T::C(id, pre, mut k) => {
                    k.insert(0, T::Raw(pre));
                    (id, k)
                }
                _ => return false,
            };
            let n = enc::encode_all(&body.1).len();
            let len = forge_len(n, g);
            sib[i] = T::Forged(body.0, len, body.1);
        }
        10 => match &mut sib[i] {
            T::C(_, _, k) => k.push(junk),
            _ => return false,
        },
        11 => {
            let t = sib[i].clone();
            sib[i] = match g.rng.below(3) {
                0 => enc::seq(vec![t]),
                1 => enc::ctx(g.rng.below(31) as u8, vec![t]),
                _ => enc::set(vec![t]),
            };
        }
        12 => {
            // unwrap
            let k = match &sib[i] {
                T::C(_, _, k) => k.clone(),
                _ => return false,
            };
            sib.splice(i..i + 1, k);
        }
        13 => match &mut sib[i] {
            // resize contents
            T::P(_, c) => {
                let n = g.size();
                let f = g.rng.byte();
                c.resize(n, f);
            }
            _ => return false,
        },
        14 => {
            // repeat
            let t = sib[i].clone();
            let k = g.small() + 1;
            for _ in 0..k {
                sib.insert(i, t.clone());
            }
        }
        15 => match &mut sib[i] {
            T::C(_, _, k) => k.clear(),
            T::P(_, c) => c.clear(),
            _ => return false,
        },
        16 => {
            // cut the end of the encoded element, its header intact
            let mut b = sib[i].bytes();
            if b.len() < 2 {
                return false;
            }
            let n = b.len();
            let cut = 1 + g.rng.below((n - 1).min(4));
            b.truncate(n - cut);
            sib[i] = T::Raw(b);
        }
        17 => {
            // drop everything after
            sib.truncate(i + 1);
        }
        18 => {
            let a = g.any_primitive();
            sib[i] = a;
        }
        19 => {
            // a well-known identifier
            match &mut sib[i] {
                T::P(6, c) => {
                    let pools = [crate::gen::EXT_OIDS, crate::gen::EKU_OIDS, crate::gen::NAMED_OIDS];
                    *c = match g.rng.below(4) {
                        3 => enc::oid_contents(g.rng.pick(&g.known)),
                        p => enc::oid_contents(g.rng.pick(pools[p])),
                    };
                }
                _ => return false,
            }
        }
        20 => match &mut sib[i] {
            // empty the children but one, or reverse them
            T::C(_, _, k) if k.len() > 1 => {
                if g.rng.chance(1, 2) {
                    k.reverse();
                } else {
                    let j = g.rng.below(k.len());
                    let t = k[j].clone();
                    *k = vec![t];
                }
            }
            _ => return false,
        },
        22 => match &mut sib[i] {
            // a string the code compared with
            T::P(_, c) | T::Raw(c) => g.word_into(c),
            _ => return false,
        },
        23 => {
            // filler at the end of the contents
            let f = filler(g);
            match &mut sib[i] {
                T::C(_, _, k) => k.push(T::Raw(f)),
                T::P(_, c) => c.extend(f),
                _ => return false,
            }
        }
        25 => match &mut sib[i] {
            // contents that are an element themselves
            T::P(id, c) => {
                if g.rng.chance(1, 2) {
                    g.word_into(c);
                }
                let own = *id;
                let t = *g.rng.pick(&[own, own, 4, 0x16, 0x0C, 0x13, 2, 0x30, 0x31, 3, 6, 0xA0, 0x82]);
                *c = enc::tlv(t, c);
            }
            _ => return false,
        },
        24 => {
            // filler around the element
            let f = T::Raw(filler(g));
            let at = i + g.rng.below(2);
            sib.insert(at, f);
        }
        _ => {
            // splice a known-good extension or name attribute
            let t = if g.rng.chance(1, 2) {
                crate::gen::ext_t(&g.ext())
            } else {
                enc::seq(crate::gen::name_kids(&g.name()))
            };
            sib.insert(i, t);
        }
    }
    true
}

/// a run of equal octets
pub fn filler(g: &mut Gen) -> Vec<u8> {
    let n = if g.rng.chance(1, 2) { g.rng.range(1, 9) } else { *g.rng.pick(&[10usize, 12, 14, 15, 16, 18, 20, 24, 31, 32, 33, 48, 64, 100, 128]) };
    let x = *g.rng.pick(&[0u8, 0, 0, 0xFF, 0xFF, 0x20, 0x0A, 0x0D, 0x30, 5, 0xA0, 0x80, 1, 4]);
    vec![x; n]
}

pub fn forge_len(n: usize, g: &mut Gen) -> Vec<u8> {
    let min = enc::len_octets(n);
    match g.rng.below(9) {
        0 => vec![0x80],
        1 => vec![0xFF],
        2 => {
            // one octet more than needed
            let k = if n < 128 { 1 } else { min.len() };
            let mut v = vec![0x80 | k as u8];
            let be = n.to_be_bytes();
            v.extend_from_slice(&be[8 - k..]);
            v
        }
        3 => {
            let k = g.rng.range(1, 9);
            let mut v = vec![0x80 | k as u8];
            let mut be = vec![0; 8];
            be.extend_from_slice(&n.to_be_bytes());
            v.extend_from_slice(&be[16 - k..]);
            v
        }
        4 => enc::len_octets(n + 1),
        5 => enc::len_octets(n.saturating_sub(1)),
        6 => vec![0x84, 0xFF, 0xFF, 0xFF, 0xFF],
        7 => vec![0x80 | g.rng.range(5, 126) as u8],
        _ => enc::len_octets(g.rng.below(2 * n + 2)),
    }
}

pub fn raw_edit(b: &mut Vec<u8>, g: &mut Gen) {
    let n = b.len();
    if n == 0 {
        let k = g.rng.range(1, 4);
        *b = g.rng.bytes(k);
        return;
    }
    let i = g.rng.below(n);
    match g.rng.below(12) {
        0 => b[i] ^= 1 << g.rng.below(8),
        1 => b[i] = g.rng.byte(),
        2 => b[i] = *g.rng.pick(&[0x00u8, 0x01, 0x7F, 0x80, 0x81, 0x82, 0x84, 0xFF, 0x30, 0xA0]),
        3 => {
            let x = g.rng.byte();
            b.insert(i, x)
        }
        4 => {
            b.remove(i);
        }
        5 => b.truncate(i),
        6 => {
            let j = g.rng.below(n);
            b.swap(i, j);
        }
        7 => b[i] = b[i].wrapping_add(1),
        8 if !g.dict.is_empty() => {
            // a constant the code compared with, as octets
            let v = *g.rng.pick(&g.dict);
            let be = v.to_be_bytes();
            let k = if v < 256 { 1 } else { 8 - (v.leading_zeros() / 8) as usize };
            for (o, x) in be[8 - k..].iter().enumerate() {
                if i + o < b.len() {
                    b[i + o] = *x;
                }
            }
        }
        10 if !g.words.is_empty() => {
            let w = g.rng.pick(&g.words).clone();
            for (o, x) in w.iter().enumerate() {
                if i + o < b.len() {
                    b[i + o] = *x;
                }
            }
        }
        11 => {
            let f = filler(g);
            b.extend(f);
        }
        _ => {
            let j = g.rng.range(i, n);
            let frag = b[i..j.min(i + 32)].to_vec();
            let at = g.rng.below(b.len() + 1);
            b.splice(at..at, frag);
        }
    }
}

/// a random mutation of an input, structural or raw
pub fn mutate(input: &[u8], other: &[u8], g: &mut Gen) -> Vec<u8> {
    if g.rng.chance(1, 4) {
        let mut b = input.to_vec();
        for _ in 0..g.rng.range(1, 3) {
            raw_edit(&mut b, g);
        }
        return b;
    }
    let mut ts = enc::parse_tree(input, 24);
    if g.rng.chance(1, 8) && !other.is_empty() {
        // splice a subtree of another input
        let mut os = enc::parse_tree(other, 24);
        let total = enc::count_all(&os);
        let k = g.rng.below(total);
        if let Some((v, i)) = locate(&mut os, k) {
            let t = v[i].clone();
            let total = enc::count_all(&ts);
            let k = g.rng.below(total);
            if let Some((v, i)) = locate(&mut ts, k) {
                if g.rng.chance(1, 2) {
                    v[i] = t;
                } else {
                    v.insert(i, t);
                }
            }
        }
    }
    for _ in 0..*g.rng.pick(&[1usize, 1, 1, 2, 3]) {
        for _ in 0..8 {
            let total = enc::count_all(&ts);
            if total == 0 {
                break;
            }
            let n = g.rng.below(total);
            let op = g.rng.below(OPS);
            if edit(&mut ts, n, op, g) {
                break;
            }
        }
    }
    enc::encode_all(&ts)
}
