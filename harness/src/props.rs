//! The workloads: for each property a focused part (enumerations and constructed families)
//! followed by coverage-guided generation over the inputs that concern it.

use crate::cal;
use crate::der_ref::{self, Kind, KINDS};
use crate::enc::{self, T};
use crate::gen::{self, CertSpec, ExtVal, Gen};
use crate::more_eval;
use crate::mutate;
use crate::rep::{c, hex};
use crate::rng::Rng;
use crate::runner::*;
use crate::x509_ref as xr;

pub const SEEDS: [&[u8]; 4] = [
    include_bytes!("../seeds/512b-rsa-example-cert.der"),
    include_bytes!("../seeds/cert_with_generalized_time.der"),
    include_bytes!("../seeds/ed25519-example-cert.der"),
    include_bytes!("../seeds/google_root_cert.cer"),
];

/// the sample certificates and their names and extensions
fn seeds() -> Vec<(Eval, Vec<u8>)> {
    let mut v = Vec::new();
    for s in SEEDS {
        v.push((DER, s.to_vec()));
        v.push((CERT, s.to_vec()));
        let Ok(w) = xr::cert(s) else { continue };
        v.push((NAME, w.issuer.of(s).to_vec()));
        v.push((NAME, w.subject.of(s).to_vec()));
        if let Some(x) = w.exts {
            if let Ok(l) = xr::ext_list(s, x) {
                for e in l.spans {
                    v.push((EXT, e.of(s).to_vec()));
                }
            }
        }
    }
    v
}

/// nested elements, built from the inside: never quadratic
pub fn nest(ids: &[u8], depth: usize, core: &[u8], after: &[u8]) -> Vec<u8> {
    let mut rev: Vec<u8> = core.iter().rev().copied().collect();
    for d in (0..depth).rev() {
        // the sibling that follows the nested element
        let inner: Vec<u8> = after.iter().rev().copied().collect();
        if !inner.is_empty() && d + 1 < depth {
            let mut r = inner;
            r.extend_from_slice(&rev);
            rev = r;
        }
        let l = enc::len_octets(rev.len());
        rev.extend(l.iter().rev());
        rev.push(ids[d % ids.len()]);
    }
    rev.reverse();
    rev
}

fn wide(id: u8, n: usize, elem: &[u8]) -> Vec<u8> {
    enc::tlv(id, &elem.repeat(n))
}

/// an element alone, inside containers, and among siblings
fn contexts(e: &[u8]) -> Vec<Vec<u8>> {
    let null = [5u8, 0];
    vec![
        e.to_vec(),
        enc::tlv(0x30, e),
        enc::tlv(0xA5, &enc::tlv(0x31, e)),
        [&null[..], e].concat(),
        [e, &null[..]].concat(),
        enc::tlv(0x30, &[&[2, 1, 5][..], e, &[1, 1, 0xFF]].concat()),
        [&enc::tlv(0x30, e)[..], e].concat(),
    ]
}

/// self-check: what the generator meant against what the reference decoder reads
fn self_check(g: &mut Gen) {
    for _ in 0..60 {
        let s = g.cert();
        let b = s.tree().bytes();
        let w = xr::cert(&b).unwrap_or_else(|e| panic!("reference refuses a generated certificate: {} {}", e.what, hex(&b)));
        agree(&s, &w, &b);
        let t = g.forest();
        let b = enc::encode_all(&t);
        let items = der_ref::walk(&b);
        assert!(!items.iter().any(|i| matches!(i, der_ref::Item::Fault { .. })), "reference refuses {}", hex(&b));
        let n: usize = t.iter().map(plain_count).sum();
        let m = items.iter().filter(|i| matches!(i, der_ref::Item::Elem(_))).count();
        assert_eq!(n, m, "reference walk of {}", hex(&b));
    }
}
fn plain_count(t: &T) -> usize {
    match t {
        T::C(id, _, k) if *id != 4 => 1 + k.iter().map(plain_count).sum::<usize>(),
        _ => 1,
    }
}
fn agree(s: &CertSpec, w: &xr::Cert, b: &[u8]) {
    let h = hex(b);
    assert!(!w.lenient, "reference finds a generated certificate borderline: {h}");
    assert_eq!(w.version, s.version, "{h}");
    assert_eq!(w.serial.of(b), s.serial, "{h}");
    for (a, x) in [(&s.alg, &w.sig), (&s.alg, &w.outer), (&s.key_alg, &w.key_alg)] {
        assert_eq!(a.0, x.arcs, "{h}");
        assert_eq!(a.1.is_some(), x.params.is_some(), "{h}");
        if let (Some(t), Some(e)) = (&a.1, &x.params) {
            assert_eq!(t.bytes(), &b[e.start..e.end()], "{h}");
        }
    }
    for (n, x) in [(&s.issuer, w.issuer), (&s.subject, w.subject)] {
        assert_eq!(enc::encode_all(&gen::name_kids(n)), x.of(b), "{h}");
        let v = xr::name(b, x).unwrap_or_else(|e| panic!("{} {h}", e.what));
        for rdn in n {
            for a in rdn {
                if let Some(i) = gen::component(&a.arcs) {
                    let T::P(_, val) = &a.value else { panic!() };
                    assert_eq!(v.comp[i].expect("component").of(b), val, "{h}");
                }
            }
        }
    }
    assert_eq!((w.not_before, w.not_after), (s.not_before.0, s.not_after.0), "{h}");
    let bits = |x: &xr::BitsV, y: &(u8, Vec<u8>)| assert!(x.unused == y.0 && x.oct.of(b) == y.1, "{h}");
    bits(&w.key, &s.key);
    bits(&w.signature, &s.signature);
    for (x, y) in [(&w.issuer_uid, &s.issuer_uid), (&w.subject_uid, &s.subject_uid)] {
        assert_eq!(x.is_some(), y.is_some(), "{h}");
        if let (Some(x), Some(y)) = (x, y) {
            bits(x, y);
        }
    }
    assert_eq!(w.exts.is_some(), s.exts.is_some(), "{h}");
    if let (Some(x), Some(y)) = (w.exts, &s.exts) {
        let l = xr::ext_list(b, x).unwrap_or_else(|e| panic!("{} {h}", e.what));
        assert!(!l.lenient, "borderline extensions {h}");
        assert_eq!(l.exts.len(), y.len(), "{h}");
        for (x, y) in l.exts.iter().zip(y) {
            assert_eq!((&x.arcs, x.critical), (&y.val.arcs(), y.critical), "{h}");
            let ok = match (&x.content, &y.val) {
                (xr::Content::Ski(s), ExtVal::Ski(v)) => s.of(b) == v,
                (xr::Content::Ku(f), ExtVal::Ku(u, v)) => {
                    (0..9).all(|i| f[i] == (i + (*u as usize) < v.len() * 8 && v[i / 8] & (0x80 >> (i % 8)) != 0))
                }
                (xr::Content::San(n), ExtVal::San(v)) => n.len() == v.len() && n.iter().zip(v).all(|(a, z)| a.0 == z.0 && a.1.of(b) == z.1),
                (xr::Content::Bc { ca, len }, ExtVal::Bc(a, l)) => *ca == a.unwrap_or(false) && len.map(|x| x as i128) == *l,
                (xr::Content::Eku(p), ExtVal::Eku(v)) => p.iter().map(|i| gen::EKU_OIDS[*i].to_vec()).eq(v.iter().cloned()),
                (xr::Content::Modbus(s), ExtVal::Modbus(v)) => s.of(b) == v,
                (xr::Content::Unknown(s), ExtVal::Unknown(_, v)) => s.of(b) == v,
                _ => false,
            };
            assert!(ok, "extension {:?} read as {:?} {h}", y, x);
        }
    }
}

pub fn run(r: &mut Runner) {
    let mut g = Gen::new(Rng::new(r.o.seed, 77 + r.o.worker as u64));
    if !cfg!(miri) {
        self_check(&mut g);
    }
    let small = matches!(r.o.flavour.as_str(), "miri" | "asan" | "tsan");
    let sources = sources(r.o.prop);
    let evals: Vec<Eval> = match r.o.prop {
        4 | 5 | 26 => vec![DER],
        2 => vec![WORK],
        24 => vec![PURE],
        28 | 29 => vec![],
        25 => vec![DER, TYPED],
        13..=16 | 21 => vec![CERT],
        17..=19 => vec![CERT, EXT],
        20 => vec![CERT, NAME],
        22 => vec![CERT, EXT, NAME],
        6..=12 => vec![DER, CERT],
        _ => vec![DER, CERT, NAME, EXT],
    };
    r.phase = "sample certificates";
    for (e, b) in seeds() {
        for x in evals.iter().copied() {
            // whole inputs for the evaluators that take anything
            if x == e || matches!(x, DER | PURE | WORK) {
                r.seed(x, b.clone());
            }
        }
    }
    if small {
        light(r, &evals, &sources);
        return;
    }
    focus(r);
    r.guided(&sources, r.o.ops);
}

fn sources(prop: u32) -> Vec<Src> {
    use Src::*;
    let all = vec![Forest, Cert, Name, AnyExt, ExtList, Any(DER), Raw(DER), Raw(CERT), Raw(NAME), Raw(EXT)];
    let prims = |ks: &[Kind]| -> Vec<Src> {
        let mut v: Vec<Src> = ks.iter().map(|k| Prim(*k)).collect();
        v.push(Forest);
        v
    };
    match prop {
        2 => vec![Any(WORK), Any(WORK), Raw(WORK)],
        4 | 5 | 26 => vec![Forest, Forest, Any(DER), Prim(Kind::Ctx), Prim(Kind::Bits), Prim(Kind::Oid), Prim(Kind::Utc), Prim(Kind::Gen), Prim(Kind::Int)],
        6 => vec![Forest, Any(DER), Cert],
        7 => vec![Forest, Any(DER), Cert, Prim(Kind::Ctx), Prim(Kind::Seq), Prim(Kind::Bool)],
        8 => prims(&[Kind::Bool, Kind::Null, Kind::Int, Kind::Octets, Kind::Utf8, Kind::Printable, Kind::Ia5]),
        9 => prims(&[Kind::Int, Kind::Int, Kind::Int]).into_iter().chain([Cert]).collect(),
        10 => prims(&[Kind::Bits, Kind::Bits, Kind::Bits]).into_iter().chain([Cert]).collect(),
        11 => prims(&[Kind::Oid, Kind::Oid, Kind::Oid]).into_iter().chain([Cert]).collect(),
        12 => prims(&[Kind::Utc, Kind::Gen, Kind::Utc, Kind::Gen]).into_iter().chain([Cert]).collect(),
        13..=15 => vec![Cert],
        16 => vec![ExtList, ExtList, AnyExt, Cert],
        17 => vec![Ext(1), Ext(3), Ext(1), Ext(3), ExtList],
        18 => vec![Ext(4), Ext(0), Ext(5), ExtList],
        19 => vec![Ext(2), Ext(2), ExtList],
        20 => vec![Name, Name, Name, Cert],
        21 => vec![Cert],
        22 => vec![Cert, ExtList, AnyExt, Name],
        24 => vec![Any(PURE), Any(PURE), Raw(PURE)],
        25 => vec![Element, Element, Forest],
        28 => vec![Family(EQUAL)],
        29 => vec![Built],
        _ => all,
    }
}

/// the slow flavours (sanitizers, interpreter): structured inputs and their damage
fn light(r: &mut Runner, evals: &[Eval], sources: &[Src]) {
    let miri = r.o.flavour == "miri";
    if !miri {
        for (e, b) in seeds() {
            if evals.contains(&e) {
                for i in 0..b.len() {
                    if r.mine() {
                        r.run(e, &b[..i]);
                    }
                    if r.stop() {
                        return;
                    }
                }
            }
        }
        if r.o.prop <= 3 {
            for depth in [1000, 20_000] {
                for id in [0x30, 0x31, 0xA0] {
                    let b = nest(&[id], depth, &[5, 0], &[]);
                    r.run(DER, &b);
                }
            }
        }
    }
    if r.o.prop == 24 {
        history(r, if miri { 1 } else { 40 }, if miri { 3 } else { 10 });
    }
    r.guided(sources, r.o.ops);
}

fn focus(r: &mut Runner) {
    match r.o.prop {
        1 => crash(r),
        2 => bounded(r),
        3 => views(r),
        4 => tree(r),
        5 => malformed(r),
        6 => lengths(r),
        7 => identifiers(r),
        8 => contents(r),
        9 => integers(r),
        10 => bit_strings(r),
        11 => oids(r),
        12 => times(r),
        13 => certs(r),
        14 => cert_damage(r),
        15 => signed(r),
        16 => ext_lists(r),
        17 => rights(r),
        18 => purposes(r),
        19 => alt_names(r),
        20 => names(r),
        21 => validity(r),
        22 => printing(r),
        24 => pure(r),
        25 => typed(r),
        26 => lossless(r),
        27 => messages(r),
        28 => equality(r),
        29 => built(r),
        30 => ambient(r),
        _ => {}
    }
}

/// all inputs up to n octets, shared among the workers
fn all_short(r: &mut Runner, eval: Eval, n: usize) {
    r.phase = "every short input";
    for len in 0..=n {
        let total = 1u64 << (8 * len);
        let mut i = r.o.worker as u64;
        while i < total {
            let b = i.to_be_bytes();
            r.run(eval, &b[8 - len..]);
            i += r.o.workers as u64;
            if r.stop() {
                return;
            }
        }
    }
}

/// contents enumerated up to n octets for one identifier
fn all_contents(r: &mut Runner, id: u8, n: usize) {
    r.phase = "every short contents";
    for len in 0..=n {
        let total = 1u64 << (8 * len);
        let mut i = r.o.worker as u64;
        while i < total {
            let b = i.to_be_bytes();
            let e = enc::tlv(id, &b[8 - len..]);
            r.run(DER, &e);
            i += r.o.workers as u64;
            if r.stop() {
                return;
            }
        }
    }
}

/// every sound contents of three octets for one identifier, and some of four, many in each input
fn sound_contents(r: &mut Runner, id: u8) {
    r.phase = "sound contents of three and four octets";
    let (kind, _) = der_ref::identify(id).unwrap();
    let sound = |c: &[u8]| matches!(der_ref::content(kind, c), Some((_, false)));
    let per = 2048u32;
    let four = if r.o.thorough { 200_000 } else { 1_000 };
    for k in 0..(1 << 24) / per {
        if !r.mine() {
            continue;
        }
        let mut batch = Vec::with_capacity(per as usize * 5);
        for i in 0..per {
            let c = (k * per + i).to_be_bytes();
            if sound(&c[1..]) {
                batch.extend([id, 3]);
                batch.extend_from_slice(&c[1..]);
            }
        }
        r.run(DER, &batch);
        if r.stop() {
            return;
        }
    }
    for _ in 0..four {
        if !r.mine() {
            continue;
        }
        let mut batch = Vec::with_capacity(per as usize * 6);
        let high = r.g.rng.u64() as u32 & !0xFFFF;
        let start = r.g.rng.u64() as u32 & 0xFFFF;
        for i in 0..per {
            let c = (high | start.wrapping_add(i * 31) & 0xFFFF).to_be_bytes();
            if sound(&c) {
                batch.extend([id, 4]);
                batch.extend_from_slice(&c);
            }
        }
        r.run(DER, &batch);
        if r.stop() {
            return;
        }
    }
}

/// damage at every node of generated inputs, and every prefix
fn damage(r: &mut Runner, sources: &[Src], rounds: usize, prefixes: bool) {
    for i in 0..rounds {
        let s = sources[i % sources.len()];
        let (e, b) = r.g.source(s);
        if b.len() > 3000 {
            continue;
        }
        r.seed(e, b.clone());
        if prefixes {
            r.phase = "every prefix";
            for k in 0..b.len() {
                r.run(e, &b[..k]);
                if r.stop() {
                    return;
                }
            }
        }
        if enc::count_all(&enc::parse_tree(&b, 24)) <= 80 {
            r.edits(e, &b, 1);
        }
        if r.stop() {
            return;
        }
    }
}

/// runs of equal octets after the last element, at every level
fn trailing(r: &mut Runner, eval: Eval, input: &[u8]) {
    r.phase = "filler after the last element";
    let ts = enc::parse_tree(input, 24);
    let n = enc::count_all(&ts);
    for x in [0u8, 0xFF, 0x20, 0x0A, 5, 0x30, 0xA0, 0x80] {
        for k in (1..=20usize).chain([24, 32, 40, 64, 128]) {
            if !r.mine() {
                continue;
            }
            for node in 0..=n {
                let mut t = ts.clone();
                if node == n {
                    t.push(T::Raw(vec![x; k]));
                } else if let Some((v, i)) = mutate::locate(&mut t, node) {
                    match &mut v[i] {
                        T::C(_, _, kids) => kids.push(T::Raw(vec![x; k])),
                        _ => continue,
                    }
                }
                let b = enc::encode_all(&t);
                r.run(eval, &b);
            }
            if r.stop() {
                return;
            }
        }
    }
}

/// small inputs for `trailing`
fn small_trees(r: &mut Runner, cert: bool) -> Vec<Vec<u8>> {
    // the same for all workers, which share the runs
    let mut g = Gen::new(Rng::new(r.o.seed, 4242));
    if cert {
        (0..3)
            .map(|_| {
                let mut s = g.cert();
                s.issuer.truncate(1);
                s.subject.truncate(1);
                if let Some(e) = &mut s.exts {
                    e.truncate(2);
                }
                s.tree().bytes()
            })
            .collect()
    } else {
        vec![
            vec![],
            vec![0x30, 0],
            vec![5, 0],
            vec![0x30, 8, 4, 2, 0, 0, 0xA1, 2, 5, 0],
            vec![0x31, 4, 0x30, 2, 0x30, 0],
            enc::encode_all(&g.forest()),
        ]
    }
}

/// what editors, transports and padding leave behind (or in front)
const TAILS: &[&[u8]] = &[
    b"\n", b"\r\n", b"\n\n", b"\r\n\r\n", b"\r", b" ", b"  ", b"\t", b"\0", b"\0\0", b"\0\0\0\0", b"\n\0", b"\x1A", b"\x04", b"\x03", b"\xFF", b"\xFF\xFF",
    b"\xEF\xBB\xBF", b"\xFE\xFF", b"\xFF\xFE", b"-----", b"-----END CERTIFICATE-----\n", b"-----END CERTIFICATE-----\r\n", b"=", b"==", b";", b".", b"\x05\0", b"\x30\0",
    b"\x30\x80\0\0", b"\x04\0", b"\x03\x01\0", b"\x02\x01\0", b"\x80\0", b"\xA0\0", b"\xA3\0", b"\xA3\x02\x30\0", b"\x82\x01\0", b"\x81\x02\0\x01",
    b"EOF", b"EOF\n", b"\0\n", b"\x90\0", b"\x90\x00\x0A", b"\x08\x08\x08\x08\x08\x08\x08\x08", b"\x04\x04\x04\x04", b"\x03\x03\x03", b"\x02\x02", b"\x01", b"\x80\0\0\0",
];

/// every pair of octets behind and in front of an input, known filler at every level
fn wrapped(r: &mut Runner, eval: Eval, input: &[u8]) {
    r.phase = "octets behind or in front";
    for a in 0..=255u8 {
        if !r.mine() {
            continue;
        }
        r.run(eval, &[input, &[a]].concat());
        r.run(eval, &[&[a], input].concat());
        for b in 0..=255u8 {
            r.run(eval, &[input, &[a, b]].concat());
            if b % 8 == a % 8 {
                r.run(eval, &[&[a, b], input].concat());
            }
        }
        if r.stop() {
            return;
        }
    }
    let ts = enc::parse_tree(input, 24);
    let n = enc::count_all(&ts);
    for tail in TAILS {
        if !r.mine() {
            continue;
        }
        r.run(eval, &[tail, input].concat());
        for node in 0..=n {
            let mut t = ts.clone();
            if node == n {
                t.push(T::Raw(tail.to_vec()));
            } else if let Some((v, i)) = mutate::locate(&mut t, node) {
                match &mut v[i] {
                    T::C(_, _, kids) => kids.push(T::Raw(tail.to_vec())),
                    _ => continue,
                }
            }
            r.run(eval, &enc::encode_all(&t));
        }
        if r.stop() {
            return;
        }
    }
}

/// a size around a power of two
fn large_size(r: &mut Runner) -> usize {
    let top = if r.o.thorough { 20 } else { 17 };
    let k = if r.g.rng.chance(1, 4) { 16 } else { r.g.rng.range(8, top + 1) };
    match r.g.rng.below(4) {
        0 => r.g.rng.range(1 << (k - 1), 1 << k),
        _ => (1usize << k) + r.g.rng.below(260) - 130,
    }
}

/// certificates of which one field is long or one list has many entries
fn large_certs(r: &mut Runner, rounds: usize) {
    r.phase = "certificates with one large field";
    for i in 0..rounds {
        if !r.mine() {
            continue;
        }
        let mut s = r.g.cert();
        s.version = 2;
        let n = large_size(r);
        let many = r.g.rng.range(1, 1 + (n / 8).min(3000));
        let bytes = if r.g.rng.chance(1, 3) { vec![r.g.rng.u64() as u8; n] } else { r.g.rng.bytes(n) };
        let text = || -> Vec<u8> { bytes.iter().map(|b| b' ' + b % 95).collect() };
        let arcs: Vec<u64> = [1, 2].into_iter().chain(bytes.iter().take(many).map(|b| (*b as u64) << (b % 20))).collect();
        let ext = match i % 18 {
            0 => {
                s.serial = [&[0x41][..], &bytes].concat();
                None
            }
            1 => {
                s.key = (0, bytes.clone());
                None
            }
            2 => {
                s.signature = (0, bytes.clone());
                None
            }
            3 => {
                s.issuer_uid = Some((0, bytes.clone()));
                None
            }
            4 => {
                s.subject_uid = Some((0, bytes.clone()));
                None
            }
            5 => {
                s.alg.1 = Some(T::P(4, bytes.clone()));
                None
            }
            6 => {
                s.key_alg = (arcs.clone(), Some(enc::seq(vec![T::P(0x0C, text())])));
                None
            }
            7 | 8 => {
                let a = gen::NAMED_OIDS[3 + i / 18 % 6];
                let id = *r.g.rng.pick(&[0x0Cu8, 0x13, 0x16]);
                let name = vec![vec![gen::Ava { arcs: a.to_vec(), value: T::P(id, text()) }]];
                if i % 18 == 7 { s.issuer = name } else { s.subject = name }
                None
            }
            9 => {
                // many attributes nobody knows, then one that is known
                s.subject = (0..many).map(|k| vec![gen::Ava { arcs: vec![2, 5, 4, 100 + k as u64], value: T::P(0x13, vec![b'x'; k % 5]) }]).collect();
                s.subject.push(vec![gen::Ava { arcs: vec![2, 5, 4, 3], value: T::P(0x13, b"last".to_vec()) }]);
                None
            }
            10 => Some(vec![ExtVal::Ski(bytes.clone())]),
            11 => Some(vec![ExtVal::Unknown(arcs.clone(), bytes.clone())]),
            12 => Some(vec![ExtVal::Modbus(text())]),
            13 => {
                let t = *r.g.rng.pick(&[1u8, 2, 6, 7]);
                Some(vec![ExtVal::San(vec![(2, b"a".to_vec()), (t, if t == 7 { vec![9; 4] } else { text() }), (6, b"b".to_vec())])])
            }
            14 => Some(vec![ExtVal::San((0..many).map(|_| r.g.san_name()).filter(|(k, b)| match k {
                7 => true,
                8 => b.len() < 5,
                _ => b.len() < 60 && std::str::from_utf8(b).is_ok(),
            }).collect())]),
            15 => Some(vec![ExtVal::Eku((0..many).map(|k| gen::EKU_OIDS[(k + k / 7) % 6].to_vec()).collect())]),
            16 => Some((0..many as u64).map(|k| ExtVal::Unknown(vec![1, 3, k], vec![k as u8; k as usize % 3])).collect()),
            _ => Some(vec![ExtVal::Ku(0, bytes.clone())]),
        };
        if let Some(e) = ext {
            let mut list: Vec<gen::ExtSpec> = e.into_iter().map(|val| gen::ExtSpec { critical: r.g.rng.chance(1, 3), val }).collect();
            if r.g.rng.chance(1, 2) {
                list.push(gen::ExtSpec { critical: true, val: ExtVal::Unknown(vec![2, 5, 29, 99], vec![1, 2, 3]) });
            }
            s.exts = Some(list);
        }
        let b = s.tree().bytes();
        r.run(CERT, &b);
        // the same with the last octet missing, or one more
        if i % 5 == 0 {
            r.run(CERT, &b[..b.len() - 1]);
            r.run(CERT, &[&b[..], &[0]].concat());
        }
        if r.stop() {
            return;
        }
    }
}

/// one element of each kind of fault
fn faults() -> Vec<Vec<u8>> {
    let l: [&[u8]; 22] = [
        &[1, 0],
        &[1, 2, 0, 0],
        &[1, 1, 1],
        &[2, 0],
        &[3, 0],
        &[3, 1, 1],
        &[3, 2, 8, 0],
        &[4, 2, 0],
        &[4, 0x80, 0, 0],
        &[4, 0x81, 1, 0],
        &[4, 0x85, 0, 0, 0, 0, 0],
        &[4, 0xFF, 0],
        &[5, 1, 0],
        &[6, 0],
        &[6, 2, 0x80, 1],
        &[6, 1, 0x80],
        &[12, 1, 0xFF],
        &[23, 1, b'0'],
        &[24, 1, b'Z'],
        &[0x10, 0],
        &[0xFF, 0],
        &[0x49, 0],
    ];
    l.iter().map(|x| x.to_vec()).collect()
}

/// certificates of which one field fills 2^24 octets, or one list has more than 2^16 entries
fn huge_certs(r: &mut Runner, fields: bool, lists: bool) {
    r.phase = "certificates with one huge field or list";
    const FIELD: usize = 1 << 24;
    const LIST: usize = 1 << 16;
    let cases: Vec<usize> = if fields { 0..8 } else { 0..0 }.chain(if lists { 8..15 } else { 0..0 }).collect();
    for k in cases {
        if !r.mine() || r.stop() {
            continue;
        }
        let mut s = r.g.cert();
        s.version = 2;
        s.exts = None;
        let fill = r.g.rng.u64() as u8 & 0x3F | 0x40;
        let n = FIELD + r.g.rng.below(300);
        let long = || vec![fill; n];
        let count = LIST + 1 + r.g.rng.below(300);
        let name = |v: Vec<u8>| vec![vec![gen::Ava { arcs: vec![2, 5, 4, 10], value: T::P(0x0C, v) }]];
        let known = || gen::Ava { arcs: vec![2, 5, 4, 3], value: T::P(0x13, b"last".to_vec()) };
        let other = |k: usize| gen::Ava { arcs: vec![2, 5, 4, 100 + k as u64 % 20], value: T::P(0x13, vec![b'x'; k % 2]) };
        let ext = match k {
            0 => Some(vec![ExtVal::Unknown(vec![1, 2, 3], long())]),
            1 => {
                s.signature = (0, long());
                None
            }
            2 => {
                s.key = (0, long());
                None
            }
            3 => {
                s.serial = long();
                None
            }
            4 => {
                s.issuer = name(long());
                None
            }
            5 => {
                s.subject = name(long());
                None
            }
            6 => {
                s.subject_uid = Some((0, long()));
                None
            }
            7 => Some(vec![ExtVal::Ski(long())]),
            8 => Some((0..count as u64).map(|k| ExtVal::Unknown(vec![1, 3, k % 100], vec![])).collect()),
            9 => Some(vec![ExtVal::San((0..count).map(|k| (2, vec![b'a' + (k % 26) as u8])).collect())]),
            10 => Some(vec![ExtVal::Eku((0..count).map(|k| gen::EKU_OIDS[(k + k / 7) % 6].to_vec()).collect())]),
            11 => {
                s.subject = (0..count).map(|k| vec![other(k)]).chain([vec![known()]]).collect();
                None
            }
            12 => {
                s.issuer = vec![(0..count).map(other).chain([known()]).collect()];
                None
            }
            13 => Some(vec![ExtVal::San((0..count).map(|k| (7, vec![10, 0, (k >> 8) as u8, k as u8])).collect())]),
            _ => Some(vec![ExtVal::Ku(0, vec![0x80; LIST / 8 + 40])]),
        };
        if let Some(e) = ext {
            s.exts = Some(e.into_iter().map(|val| gen::ExtSpec { critical: r.g.rng.chance(1, 3), val }).collect());
        }
        r.rep.count(if k < 8 { "fields of 16 MiB" } else { "lists of more than 65536 entries" });
        r.run(CERT, &s.tree().bytes());
    }
}

/// an input as other formats and careless senders would have it: armoured, marked, wrapped,
/// repeated, padded
pub fn wrappings(b: &[u8]) -> Vec<Vec<u8>> {
    const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut b64 = Vec::new();
    for c in b.chunks(3) {
        let v = (0..3).fold(0u32, |v, i| v << 8 | c.get(i).copied().unwrap_or(0) as u32);
        for i in 0..4 {
            b64.push(if i <= c.len() { B64[(v >> (18 - 6 * i)) as usize & 63] } else { b'=' });
        }
    }
    let lines = |sep: &[u8]| -> Vec<u8> { b64.chunks(64).flat_map(|l| [l, sep].concat()).collect() };
    let mut v = vec![b64.clone(), lines(b"\n"), crate::rep::hex(b).into_bytes()];
    for label in ["CERTIFICATE", "X509 CERTIFICATE", "TRUSTED CERTIFICATE", "PKCS7"] {
        for sep in [&b"\n"[..], b"\r\n"] {
            v.push([b"-----BEGIN ", label.as_bytes(), b"-----", sep, &lines(sep), b"-----END ", label.as_bytes(), b"-----", sep].concat());
        }
    }
    let before: [&[u8]; 24] = [
        &[0xEF, 0xBB, 0xBF],
        &[0xFE, 0xFF],
        &[0xFF, 0xFE],
        &[0],
        &[0, 0],
        &[0; 4],
        &[0xFF],
        b"\n",
        b"\r\n",
        b" ",
        b"\t",
        b"#!",
        &[0x1F, 0x8B, 8, 0, 0, 0, 0, 0, 0, 3],
        &[5, 0],
        &[4, 0],
        &[1, 1, 0xFF],
        &[2, 1, 0],
        &[0x30, 0],
        &[0x30, 0x80],
        &[0xA0, 0],
        b"DER:",
        b"-----BEGIN CERTIFICATE-----\n",
        b"0x",
        &[0x7F],
    ];
    let after: [&[u8]; 14] = [
        &[0],
        &[0, 0],
        &[0; 8],
        &[0xFF],
        &[0xFF; 4],
        b"\n",
        b"\r\n",
        b" ",
        &[0x1A],
        &[5, 0],
        &[0x30, 0],
        &[0xA0, 0],
        b"-----END CERTIFICATE-----\n",
        &[0x30],
    ];
    for x in before {
        v.push([x, b].concat());
    }
    for x in after {
        v.push([b, x].concat());
    }
    v.push([&[0xEF, 0xBB, 0xBF][..], b, b"\n"].concat());
    v.push([b, b].concat());
    v.push(b.iter().rev().copied().collect());
    v.push(b.iter().flat_map(|x| [0, *x]).collect());
    v.push(b.iter().flat_map(|x| [*x, 0]).collect());
    for id in [0x30, 0x31, 0x04, 0x24, 0x0C, 0x13, 0x16, 0x80, 0xA0, 0xA1, 0xA3, 0xBE, 0x60, 0x7F, 0xE0, 0x23, 0x28] {
        v.push(enc::tlv(id, b));
        v.push(enc::tlv(id, &enc::tlv(id, b)));
    }
    v.push(enc::tlv(3, &[&[0][..], b].concat()));
    // as the content of signed data, and of a collection
    let oid = [6u8, 9, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 1, 7, 2];
    v.push(enc::tlv(0x30, &[&oid[..], &enc::tlv(0xA0, b)].concat()));
    v.push(enc::tlv(0x30, &[&oid[..], &enc::tlv(0xA0, &enc::tlv(0x30, &[&[2u8, 1, 1][..], b].concat()))].concat()));
    v.push(enc::tlv(0x30, &[b, b].concat()));
    v.push(enc::tlv(0x30, &[b, &[0x30, 0]].concat()));
    // the length in other forms
    if b.len() > 4 && b[0] & 0x1F != 0x1F {
        let (l, h) = if b[1] < 128 { (b[1] as usize, 2) } else { (b.len() - 2 - (b[1] & 127) as usize, 2 + (b[1] & 127) as usize) };
        let body = b.get(h..).unwrap_or(&[]);
        for k in 1..9usize {
            let n = (l as u64).to_be_bytes();
            v.push([&[b[0], 0x80 | k as u8], &n[8 - k..], body].concat());
        }
        v.push([&[b[0], 0x80], body, &[0, 0]].concat());
        v.push([&[b[0], 0xFF], body].concat());
        v.push([&[b[0]], body].concat());
        v.push(body.to_vec());
    }
    v
}

fn seed_wrapped(r: &mut Runner, evals: &[Eval]) {
    r.phase = "wrapped, marked, repeated and padded";
    for (e, b) in seeds() {
        if evals.contains(&e) {
            for x in wrappings(&b) {
                if r.mine() {
                    r.run(e, &x);
                }
            }
        }
        if r.stop() {
            return;
        }
    }
}

/// the same done to every element inside an input
fn wrapped_inside(r: &mut Runner, eval: Eval, input: &[u8]) {
    r.phase = "elements inside wrapped, marked, repeated and padded";
    let ts = enc::parse_tree(input, 24);
    for node in 0..enc::count_all(&ts) {
        let mut t = ts.clone();
        let Some((v, i)) = mutate::locate(&mut t, node) else { continue };
        let b = enc::encode_all(&v[i..=i]);
        if b.len() > 600 || !r.mine() {
            continue;
        }
        for w in wrappings(&b) {
            let mut t = ts.clone();
            if let Some((v, i)) = mutate::locate(&mut t, node) {
                v[i] = T::Raw(w);
            }
            r.run(eval, &enc::encode_all(&t));
        }
        if r.stop() {
            return;
        }
    }
}

fn seed_damage(r: &mut Runner, evals: &[Eval], octets: bool) {
    seed_wrapped(r, evals);
    for (e, b) in seeds() {
        if evals.contains(&e) && r.mine() {
            if octets {
                r.octets(e, &b);
            }
            r.edits(e, &b, 1);
        }
        if r.stop() {
            return;
        }
    }
}

// ------------------------------------------------------------------------------------ C01

fn hostile_shapes(r: &mut Runner, eval: Eval) {
    r.phase = "deep nesting";
    let big = if r.o.thorough { 1_000_000 } else { 150_000 };
    let algid = &[6u8, 3, 0x2B, 0x65, 0x70][..];
    for depth in [10, 100, 1000, 30_000, big] {
        for ids in [&[0x30u8][..], &[0x31], &[0xA0], &[0xBE], &[0x30, 0x31, 0xA1, 0x30]] {
            for core in [&[5u8, 0][..], &[0x30, 0], &[2, 0], &[0x1F, 0], &[4, 5, 0], &[]] {
                if !r.mine() {
                    continue;
                }
                let b = nest(ids, depth, core, &[]);
                r.run(eval, &b);
                if core.len() == 2 && core[0] == 5 {
                    // the same inside a certificate: as parameters, name, extension value
                    let mut spec = r.g.cert();
                    let mut pad = spec.tree().bytes();
                    if eval == WORK || eval == CERT || r.o.prop == 1 {
                        spec.version = 2;
                        let cert = with_params(&b);
                        r.run(if eval == DER { CERT } else { eval }, &cert);
                        let name = with_name(&b);
                        r.run(if eval == DER { CERT } else { eval }, &name);
                        let ext = enc::tlv(0x30, &enc::tlv(0x30, &[algid, &enc::tlv(4, &b)].concat()));
                        r.run(if eval == DER { CERT } else { eval }, &Gen::cert_around_ext(&ext));
                        r.run(if eval == DER { NAME } else { eval }, &b);
                        r.run(if eval == DER { EXT } else { eval }, &b);
                    }
                    pad.clear();
                }
                if r.stop() {
                    return;
                }
            }
        }
    }
    r.phase = "nesting with siblings";
    for depth in [5, 50, 800] {
        if r.mine() {
            let b = nest(&[0x30, 0xA2], depth, &[5, 0], &[2, 1, 7]);
            r.run(eval, &b);
        }
    }
    r.phase = "wide lists";
    let n = if r.o.thorough { 1_000_000 } else { 100_000 };
    let ava = [0x30u8, 9, 6, 3, 0x55, 4, 5, 0x0C, 2, b'h', b'i'];
    let ava2 = [0x30u8, 9, 6, 3, 0x55, 4, 3, 0x0C, 2, b'h', b'i'];
    let ku_ext = [0x30u8, 11, 6, 3, 0x55, 0x1D, 0x0F, 4, 4, 3, 2, 5, 0xA0];
    let unk_ext = [0x30u8, 8, 6, 3, 0x55, 0x1D, 0x20, 4, 1, 0];
    let lists: Vec<Vec<u8>> = vec![
        wide(0x30, n, &[5, 0]),
        wide(0x31, n, &[0x30, 0]),
        wide(0x30, n, &[1, 1, 0xFF]),
        wide(0x30, n / 10, &enc::tlv(6, &[0x2A; 40])),
        [5u8, 0].repeat(n),
        [0x80u8, 0].repeat(n),
        enc::tlv(6, &[&[0x2A][..], &[1].repeat(n)].concat()),
        enc::tlv(6, &[&[0x2A][..], &[0xFF].repeat(n), &[1]].concat()),
        enc::tlv(2, &[0x7F].repeat(n)),
        enc::tlv(3, &[&[0][..], &[0x55].repeat(n)].concat()),
        enc::tlv(3, &[&[3][..], &[0x58].repeat(n)].concat()),
        enc::tlv(0x0C, "é".as_bytes().repeat(n / 2).as_slice()),
        enc::tlv(0x17, &[b'9'].repeat(n)),
        enc::tlv(0x18, &[b'9'].repeat(n)),
        enc::tlv(0x30, &enc::tlv(0x30, &[5, 0].repeat(n))),
    ];
    for b in lists {
        if r.mine() {
            r.run(eval, &b);
            // as parameters of a certificate
            let cert = with_params(&b);
            r.run(if eval == DER { CERT } else { eval }, &cert);
        }
    }
    let m = n / 10;
    let sets: Vec<Vec<u8>> = vec![
        enc::tlv(0x31, &ava).repeat(m),
        enc::tlv(0x31, &ava.repeat(m)),
        enc::tlv(0x31, &ava2).repeat(m),
        [0x31, 0].repeat(m),
    ];
    for b in sets {
        if r.mine() {
            r.run(if eval == DER { NAME } else { eval }, &b);
            r.run(if eval == DER { CERT } else { eval }, &with_name(&b));
        }
    }
    let kuo = [6u8, 3, 0x55, 0x1D, 0x0F];
    let eku = [6u8, 3, 0x55, 0x1D, 0x25];
    let san = [6u8, 3, 0x55, 0x1D, 0x11];
    let ski = [6u8, 3, 0x55, 0x1D, 0x0E];
    let server = enc::oid(gen::EKU_OIDS[0]).bytes();
    let values: Vec<Vec<u8>> = vec![
        [&kuo[..], &enc::tlv(4, &enc::tlv(3, &[&[0][..], &[0xAA].repeat(n)].concat()))].concat(),
        [&eku[..], &enc::tlv(4, &enc::tlv(0x30, &server.repeat(m)))].concat(),
        [&san[..], &enc::tlv(4, &enc::tlv(0x30, &[0x82, 2, b'a', b'b'].repeat(m)))].concat(),
        [&san[..], &enc::tlv(4, &enc::tlv(0x30, &[0x87, 4, 1, 2, 3, 4].repeat(m)))].concat(),
        [&san[..], &enc::tlv(4, &enc::tlv(0x30, &[0x88, 2, 0x2A, 3].repeat(m)))].concat(),
        [&ski[..], &enc::tlv(4, &enc::tlv(4, &[7].repeat(n)))].concat(),
        [&[6u8, 3, 0x55, 0x1D, 0x63][..], &enc::tlv(4, &[7].repeat(n))].concat(),
    ];
    for b in values {
        if r.mine() {
            r.run(if eval == DER { EXT } else { eval }, &b);
            r.run(if eval == DER { CERT } else { eval }, &Gen::cert_around_ext(&enc::tlv(0x30, &enc::tlv(0x30, &b))));
        }
    }
    // long lists whose elements are all valid and all different
    r.phase = "long lists of different elements";
    let q = if r.o.thorough { 20_000u64 } else { 4000 };
    let numbered = |i: u64| -> Vec<u8> { format!("{i:x}").into_bytes() };
    let of = |id: u8, f: &dyn Fn(u64) -> Vec<u8>| -> Vec<u8> { (0..q).flat_map(|i| enc::tlv(id, &f(i))).collect() };
    let spread = |i: u64| enc::oid_contents(&[2, 5, i % 128, i / 128]);
    let alike = |i: u64| enc::oid_contents(&[1, 2, 840, 113549, i]);
    let big_lists: Vec<(&[u8], Vec<u8>)> = vec![
        (&san, of(0x81, &numbered)),
        (&san, of(0x82, &numbered)),
        (&san, of(0x86, &numbered)),
        (&san, of(0x87, &|i| (i as u32).to_be_bytes().to_vec())),
        (&san, of(0x87, &|i| (i as u128 * 0x1_0001_0001).to_be_bytes().to_vec())),
        (&san, of(0x88, &spread)),
        (&san, of(0x88, &alike)),
        (&san, (0..q).flat_map(|i| enc::tlv([0x81, 0x82, 0x86, 0x82][i as usize % 4], &numbered(i))).collect()),
        (&san, (0..q / 8).flat_map(|i| enc::tlv(0x82, &[&vec![b'a'; 60][..], &numbered(i)].concat())).collect()),
        (&eku, (0..q).flat_map(|i| enc::oid(gen::EKU_OIDS[i as usize % 6]).bytes()).collect()),
        (&eku, of(6, &alike)),
    ];
    for (oid, list) in &big_lists {
        if r.mine() {
            let b = [&oid[..], &enc::tlv(4, &enc::tlv(0x30, list))].concat();
            r.run(if eval == DER { EXT } else { eval }, &b);
            r.run(if eval == DER { CERT } else { eval }, &Gen::cert_around_ext(&enc::tlv(0x30, &enc::tlv(0x30, &b))));
            let b = enc::tlv(0x30, list);
            r.run(eval, &b);
            r.run(if eval == DER { CERT } else { eval }, &with_params(&b));
        }
    }
    let attr = |i: u64, arcs: &[u64]| enc::tlv(0x30, &[&enc::oid(arcs).bytes()[..], &enc::tlv(0x0C, &numbered(i))].concat());
    let known: Vec<Vec<u64>> = (3..12).map(|k| vec![2, 5, 4, k]).collect();
    let dns: Vec<Vec<u8>> = vec![
        (0..q).flat_map(|i| enc::tlv(0x31, &attr(i, &known[i as usize % 9]))).collect(),
        (0..q).flat_map(|i| enc::tlv(0x31, &attr(i, &[2, 5, 4, i]))).collect(),
        (0..q).flat_map(|i| enc::tlv(0x31, &attr(i, &[2, 5, 4, 3]))).collect(),
        enc::tlv(0x31, &(0..q).flat_map(|i| attr(i, &known[i as usize % 9])).collect::<Vec<u8>>()),
        enc::tlv(0x31, &(0..q).flat_map(|i| attr(i, &[2, 5, 4, i + 200])).collect::<Vec<u8>>()),
    ];
    for b in &dns {
        if r.mine() {
            r.run(if eval == DER { NAME } else { eval }, b);
            r.run(if eval == DER { CERT } else { eval }, &with_name(b));
            r.run(eval, b);
        }
    }
    let lists: Vec<Vec<u8>> = vec![
        (0..q).flat_map(|i| enc::tlv(0x30, &[&enc::tlv(6, &alike(i))[..], &enc::tlv(4, &numbered(i))].concat())).collect(),
        (0..q).flat_map(|i| enc::tlv(0x30, &[&enc::oid(gen::EXT_OIDS[i as usize % 6]).bytes()[..], &enc::tlv(4, &enc::tlv(4, &numbered(i)))].concat())).collect(),
        // all alike as the known ones are, but each in a list of its own
        (0..q).flat_map(|i| enc::tlv(0x30, &[&san[..], &enc::tlv(4, &enc::tlv(0x30, &enc::tlv(0x82, &numbered(i))))].concat())).collect(),
    ];
    for b in &lists {
        if r.mine() {
            r.run(if eval == DER { CERT } else { eval }, &Gen::cert_around_ext(&enc::tlv(0x30, b)));
            r.run(eval, b);
        }
    }
    let mixed: Vec<Vec<u8>> = vec![
        of(2, &|i| enc::int_contents(i as i128 - 2000)),
        of(3, &|i| [&[0][..], &numbered(i)].concat()),
        of(4, &numbered),
        of(6, &spread),
        of(0x0C, &numbered),
        of(0x13, &numbered),
        of(0x16, &numbered),
        of(0x80, &numbered),
        (0..q).flat_map(|i| enc::tlv(0x80 | (i % 31) as u8, &numbered(i))).collect(),
        (0..q).flat_map(|i| enc::tlv(0xA0 | (i % 31) as u8, &enc::tlv(4, &numbered(i)))).collect(),
        (0..q).flat_map(|i| enc::tlv(0x30, &enc::tlv(2, &enc::int_contents(i as i128)))).collect(),
        (0..q).flat_map(|i| enc::tlv(0x17, format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", i % 50, 1 + i % 12, 1 + i % 28, i % 24, i % 60, i % 59).as_bytes())).collect(),
        vec![0; q as usize * 8],
        vec![0xFF; q as usize * 8],
    ];
    for b in &mixed {
        if r.mine() {
            r.run(eval, b);
            let b = enc::tlv(0x30, b);
            r.run(eval, &b);
            r.run(if eval == DER { CERT } else { eval }, &with_params(&b));
        }
    }
    // many extensions: all alike, and all different
    let different: Vec<u8> = (0..m as u64)
        .flat_map(|i| enc::tlv(0x30, &[&enc::oid(&[1, 3, 6, i]).bytes()[..], &[4, 1, 0]].concat()))
        .collect();
    for b in [ku_ext.repeat(m), unk_ext.repeat(m), different] {
        if r.mine() {
            r.run(if eval == DER { CERT } else { eval }, &Gen::cert_around_ext(&enc::tlv(0x30, &b)));
        }
    }
    let different: Vec<u8> = (0..m as u64)
        .flat_map(|i| enc::tlv(0x31, &enc::tlv(0x30, &[&enc::oid(&[1, 3, 6, i]).bytes()[..], &[0x0C, 1, b'x']].concat())))
        .collect();
    if r.mine() {
        r.run(if eval == DER { NAME } else { eval }, &different);
    }
    r.phase = "lying lengths";
    for id in [0x04u8, 0x30, 0x03, 0x06, 0x0C, 0x02, 0xA0, 0x80, 0x17, 0x05, 0x01] {
        for len in [
            &[0x84u8, 0xFF, 0xFF, 0xFF, 0xFF][..],
            &[0x84, 0x7F, 0xFF, 0xFF, 0xFF],
            &[0x84, 0x80, 0, 0, 0],
            &[0x83, 0xFF, 0xFF, 0xFF],
            &[0x82, 0xFF, 0xFF],
            &[0x81, 0xFF],
            &[0x85, 1, 0, 0, 0, 0],
            &[0x88, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF],
            &[0xFE],
            &[0xFF],
            &[0x80],
        ] {
            if r.mine() {
                let e = [&[id][..], len, &[0; 70]].concat();
                for b in contexts(&e) {
                    r.run(eval, &b);
                }
                if eval == DER {
                    r.run(CERT, &e);
                    r.run(NAME, &e);
                    r.run(EXT, &e);
                }
            }
        }
    }
}

/// a certificate with the element as parameters of the outer algorithm
fn with_params(e: &[u8]) -> Vec<u8> {
    more_eval::carrier(e).0
}
/// a certificate with the octets as contents of the issuer
fn with_name(contents: &[u8]) -> Vec<u8> {
    let tbs = [
        &[2u8, 1, 1, 0x30, 5, 6, 3, 0x2B, 0x65, 0x70][..],
        &enc::tlv(0x30, contents),
        &enc::tlv(0x30, &[enc::tlv(0x17, b"200101000000Z"), enc::tlv(0x17, b"300101000000Z")].concat()),
        &[0x30, 0, 0x30, 10, 0x30, 5, 6, 3, 0x2B, 0x65, 0x70, 3, 1, 0],
    ]
    .concat();
    enc::tlv(0x30, &[&enc::tlv(0x30, &tbs)[..], &[0x30, 5, 6, 3, 0x2B, 0x65, 0x70, 3, 1, 0]].concat())
}

fn crash(r: &mut Runner) {
    large_certs(r, 360);
    for e in [CERT, NAME, EXT] {
        all_short(r, e, 2);
    }
    all_short(r, DER, if r.o.thorough { 3 } else { 2 });
    hostile_shapes(r, DER);
    for id in [1, 2, 3, 5, 6, 0x0C, 0x13, 0x16, 0x17, 0x18] {
        all_contents(r, id, 2);
    }
    seed_damage(r, &[DER, CERT, NAME, EXT], true);
    let s = sources(1);
    damage(r, &s, if r.o.thorough { 60 } else { 4 }, true);
}

// ------------------------------------------------------------------------------------ C02

fn bounded(r: &mut Runner) {
    // a stack that a recursion proportional to the nesting would exhaust
    r.phase = "small stack";
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(256 * 1024).spawn_scoped(s, || hostile_shapes(r, WORK));
        t.expect("spawn").join().expect("workload");
    });
    r.phase = "lying and nested";
    all_short(r, WORK, 2);
}

// ------------------------------------------------------------------------------------ C03

fn views(r: &mut Runner) {
    large_certs(r, 360);
    huge_certs(r, true, false);
    all_short(r, DER, 2);
    seed_damage(r, &[DER, CERT, NAME, EXT], false);
    let s = sources(3);
    damage(r, &s, if r.o.thorough { 60 } else { 4 }, true);
    sound_contents(r, 0x0C);
    sound_contents(r, 0x13);
    boundaries(r);
    texts(r, if r.o.thorough { 70_000 } else { 3_000 });
}

const NOT_UTF8: [&[u8]; 12] = [
    &[0xFF],
    &[0xFE],
    &[0x80],
    &[0xBF, 0xBF],
    &[0xC3],
    &[0xE2, 0x82],
    &[0xF0, 0x9F, 0x98],
    &[0xC0, 0x80],
    &[0xE0, 0x80, 0x80],
    &[0xED, 0xA0, 0x80],
    &[0xF4, 0x90, 0x80, 0x80],
    &[0xF8, 0x88, 0x80, 0x80, 0x80],
];

/// texts of every size around the powers of two and beyond, with a single fault anywhere in
/// them, wherever a text can stand
pub fn texts(r: &mut Runner, rounds: usize) {
    r.phase = "long texts with one fault";
    for i in 0..rounds {
        if !r.mine() {
            continue;
        }
        let n = match i % 4 {
            0 => (1usize << r.g.rng.range(2, 13)) + r.g.rng.below(5) - 2,
            1 => r.g.rng.range(1, 300),
            2 => r.g.rng.range(1, 80) * *r.g.rng.pick(&[1usize, 7, 8, 16, 32]),
            _ => r.g.rng.range(200, 20_000),
        };
        let filler = *r.g.rng.pick(&[&b"a"[..], b"0", "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1F600}".as_bytes(), &[0], b" "]);
        let mut s: Vec<u8> = filler.iter().copied().cycle().take(n.next_multiple_of(filler.len())).collect();
        if r.g.rng.chance(1, 2) {
            // mostly plain text
            let plain = b'a';
            let keep = r.g.rng.below(s.len() / filler.len() + 1) * filler.len();
            let upto = (keep + filler.len()).min(s.len());
            for (k, b) in s.iter_mut().enumerate() {
                if k < keep || k >= upto {
                    *b = plain;
                }
            }
        }
        if r.g.rng.chance(5, 6) {
            let frag = NOT_UTF8[r.g.rng.below(NOT_UTF8.len())];
            let at = match r.g.rng.below(4) {
                0 => s.len(),
                1 => r.g.rng.below(s.len().min(20) + 1),
                2 => s.len() - r.g.rng.below(s.len().min(20) + 1),
                _ => r.g.rng.below(s.len() + 1),
            };
            if r.g.rng.chance(1, 2) {
                s.splice(at..at, frag.iter().copied());
            } else {
                for (k, b) in frag.iter().enumerate() {
                    if let Some(x) = s.get_mut(at + k) {
                        *x = *b;
                    }
                }
            }
        }
        let id = *r.g.rng.pick(&[0x0Cu8, 0x13, 0x16]);
        let e = enc::tlv(id, &s);
        match i % 5 {
            0 => {
                r.run(DER, &e);
            }
            1 => {
                let pre = r.g.any_primitive().bytes();
                let post = r.g.any_primitive().bytes();
                let inner = enc::tlv(0x30, &[pre, e, post].concat());
                r.run(DER, &inner);
            }
            2 => {
                r.run(CERT, &with_params(&e));
            }
            3 => {
                let attr = enc::tlv(0x31, &enc::tlv(0x30, &[enc::oid(gen::NAMED_OIDS[r.g.rng.below(gen::NAMED_OIDS.len())]).bytes(), e].concat()));
                r.run(NAME, &attr);
                r.run(CERT, &with_name(&attr));
            }
            _ => {
                let t = *r.g.rng.pick(&[0x81u8, 0x82, 0x86, 0x87, 0x88]);
                for (kind, v) in [(2usize, enc::tlv(0x30, &enc::tlv(t, &s))), (5, enc::tlv(0x0C, &s))] {
                    let k = known(kind, None, &v);
                    r.run(EXT, &k);
                }
            }
        }
        if r.stop() {
            return;
        }
    }
}

/// contents sizes around every length form, for every kind of view
fn boundaries(r: &mut Runner) {
    r.phase = "contents sizes around the length forms";
    let mut sizes = vec![0usize, 1, 2, 3, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 65534, 65535, 65536, 65537];
    if r.o.thorough {
        sizes.extend([16_777_214, 16_777_215, 16_777_216, 16_777_217]);
    }
    for n in sizes {
        for id in [4u8, 0x0C, 0x13, 0x16, 2, 3, 0x80, 0x9E, 0x30, 0x31, 0xA0, 6] {
            if !r.mine() {
                continue;
            }
            let body: Vec<u8> = match id {
                0x30 | 0x31 | 0xA0 => {
                    // one element that fills it
                    let mut k = n.saturating_sub(2);
                    while k > 0 && enc::tlv(4, &vec![0; k]).len() > n {
                        k -= 1;
                    }
                    if n >= 2 { enc::tlv(4, &vec![9; k]) } else { vec![] }
                }
                6 if n == 0 => vec![1],
                6 => vec![1; n],
                3 => [vec![0], vec![0xA5; n]].concat(),
                2 if n == 0 => vec![1],
                _ => vec![0x41; n],
            };
            let e = enc::tlv(id, &body);
            for b in contexts(&e) {
                r.run(DER, &b);
            }
            if r.o.prop != 4 && r.o.prop != 5 && r.o.prop != 26 {
                r.run(CERT, &with_params(&e));
            }
            if r.stop() {
                return;
            }
        }
    }
}

// -------------------------------------------------------------------------- C04, C05, C26

/// every ordered pair of element kinds as siblings and as parent and child
fn pairs(r: &mut Runner) {
    r.phase = "pairs of kinds";
    for a in KINDS {
        for b in KINDS {
            for round in 0..3 {
                if !r.mine() {
                    continue;
                }
                let (x, y) = (r.g.primitive(a), r.g.primitive(b));
                let (x, y) = (x.bytes(), y.bytes());
                let mut v = vec![[&x[..], &y].concat(), enc::tlv(0x30, &[&x[..], &y].concat()), enc::tlv(0x31, &[&y[..], &x, &y].concat())];
                for n in [0u8, 1, 15, 30] {
                    v.push(enc::tlv(0xA0 | n, &[&x[..], &y].concat()));
                    v.push(enc::tlv(0x80 | n, &[&x[..], &y].concat()));
                    v.push([&enc::tlv(0xA0 | n, &x)[..], &y].concat());
                }
                for b in v {
                    r.run(DER, &b);
                    if round == 0 {
                        for k in 0..b.len().min(200) {
                            r.run(DER, &b[..k]);
                        }
                    }
                }
            }
            if r.stop() {
                return;
            }
        }
    }
}

fn tree(r: &mut Runner) {
    for b in small_trees(r, false) {
        trailing(r, DER, &b);
    }
    all_short(r, DER, if r.o.thorough { 3 } else { 2 });
    pairs(r);
    boundaries(r);
    deep(r);
    let s = sources(4);
    damage(r, &s, if r.o.thorough { 100 } else { 8 }, false);
    seed_damage(r, &[DER], false);
}

fn deep(r: &mut Runner) {
    r.phase = "nesting";
    // every depth for a while, then some
    for d in (0..400).chain([1000, 1023, 1024, 1025, 4096, 10_000, 40_000]) {
        for ids in [&[0x30u8][..], &[0x31], &[0xA0], &[0xA3, 0x30, 0x31]] {
            if !r.mine() {
                continue;
            }
            let b = nest(ids, d, &[2, 1, 5], &[]);
            r.run(DER, &b);
            if d <= 400 {
                r.run(DER, &nest(ids, d, &[2, 1, 5], &[1, 1, 0xFF]));
                r.run(DER, &nest(ids, d, &[2, 0], &[]));
                r.run(DER, &nest(ids, d, &[], &[]));
            }
            if r.stop() {
                return;
            }
        }
    }
    r.phase = "wide";
    for n in (1..200).chain([255, 256, 257, 1000, 5000, 65_536]) {
        if r.mine() {
            r.run(DER, &wide(0x30, n, &[2, 1, 7]));
            r.run(DER, &wide(0x31, n, &[0x30, 0]));
            r.run(DER, &[0x05, 0].repeat(n));
        }
    }
}

fn malformed(r: &mut Runner) {
    for b in small_trees(r, false) {
        trailing(r, DER, &b);
    }
    wrapped(r, DER, &[0x30, 8, 4, 2, 0, 0, 0xA1, 2, 5, 0]);
    all_short(r, DER, if r.o.thorough { 3 } else { 2 });
    pairs(r);
    boundaries(r);
    deep(r);
    seed_damage(r, &[DER], true);
    let s = sources(5);
    damage(r, &s, if r.o.thorough { 200 } else { 12 }, true);
}

/// every fault there is, alone and among other elements
fn messages(r: &mut Runner) {
    boundaries(r);
    large_certs(r, 180);
    all_short(r, DER, 2);
    for id in [1u8, 2, 3, 5, 6, 0x0C, 0x17] {
        all_contents(r, id, 2);
    }
    r.phase = "every length form";
    for n in 0..=127u8 {
        for id in [4u8, 0x30, 0x31, 0xA0, 0x80, 2] {
            if !r.mine() {
                continue;
            }
            for fill in [0u8, 1, 0x7F, 0x80, 0xFF] {
                for have in [0usize, 1, 2, 3, 4, n as usize, 140] {
                    let mut b = vec![id, 0x80 | n];
                    b.extend(vec![fill; have.min(140)]);
                    r.run(DER, &b);
                    let outer = enc::tlv(0x30, &b);
                    r.run(DER, &[&[5, 0][..], &outer].concat());
                }
            }
        }
        if r.stop() {
            return;
        }
    }
    texts(r, if r.o.thorough { 40_000 } else { 2_000 });
    let s = sources(27);
    damage(r, &s, if r.o.thorough { 60 } else { 8 }, true);
    seed_damage(r, &[CERT, NAME, EXT], false);
}

/// every pair of many elements of every kind
fn equality(r: &mut Runner) {
    r.phase = "pairs of values";
    // the same contents under every identifier, and every form of small contents
    let mut small: Vec<Vec<u8>> = Vec::new();
    for body in [&[][..], &[0], &[1], &[0xFF], &[0, 0], &[0, 0xA0], &[5, 0xA0], &[4, 0xA0], &[5, 0xBF], &[7, 0x80], &[0x2A, 3], b"ab", b"AB", b"ab\0"] {
        for id in [1u8, 2, 3, 4, 5, 6, 0x0C, 0x13, 0x16, 0x30, 0x31, 0x80, 0x81, 0x9E, 0xA0, 0xA1] {
            small.push(enc::tlv(id, body));
        }
    }
    for t in ["991231235959Z", "700101000000Z", "000229000000Z", "491231235959Z", "19991231235959Z", "19700101000000Z", "20000229000000Z", "20491231235959Z", "29991231235959Z"] {
        small.push(enc::tlv(if t.len() == 13 { 0x17 } else { 0x18 }, t.as_bytes()));
    }
    for (i, part) in small.chunks(24).enumerate() {
        for other in small.chunks(24).skip(i) {
            if r.mine() {
                r.run(EQUAL, &pack_history(&[part, other].concat()));
            }
        }
        if r.stop() {
            return;
        }
    }
    for k in KINDS {
        for _ in 0..if r.o.thorough { 4000 } else { 150 } {
            let mut v: Vec<Vec<u8>> = (0..10).map(|_| r.g.primitive(k).bytes()).collect();
            let a = v[0].clone();
            for i in 2..a.len().min(12) {
                let mut b = a.clone();
                b[i] ^= 1 << r.g.rng.below(8);
                v.push(b);
                v.push(a[..a.len() - 1].to_vec());
            }
            // agreeing up to the end, or from some point on
            if a.len() > 3 && a[1] < 100 {
                for extra in [0u8, 1, 0x20, 0x7F] {
                    let mut b = a.clone();
                    b[1] += 1;
                    b.push(extra);
                    v.push(b);
                    let mut b = a.clone();
                    b[1] += 1;
                    b.insert(2, extra);
                    v.push(b);
                }
            }
            r.run(EQUAL, &pack_history(&v));
            if r.stop() {
                return;
            }
        }
    }
    for _ in 0..if r.o.thorough { 30_000 } else { 1500 } {
        let f = r.g.family(24);
        if f.iter().map(|x| x.len()).sum::<usize>() < 8000 {
            r.run(EQUAL, &pack_history(&f));
        }
        if r.stop() {
            return;
        }
    }
    // long values that differ in one place
    for _ in 0..200 {
        let n = r.g.rng.range(20, 3000);
        let id = *r.g.rng.pick(&[4u8, 0x0C, 0x13, 2, 0x30, 0x80, 6]);
        let body = if id == 6 { vec![5u8; n] } else { r.g.ascii(n) };
        let mut v = vec![enc::tlv(id, &body)];
        for _ in 0..8 {
            let mut b = body.clone();
            let i = r.g.rng.below(b.len());
            b[i] ^= 1;
            v.push(enc::tlv(id, &b));
        }
        r.run(EQUAL, &pack_history(&v));
        if r.stop() {
            return;
        }
    }
}

/// nothing but computing
fn ambient(r: &mut Runner) {
    r.phase = "calls that must show";
    let n = crate::ambient::self_check();
    assert!(r.o.flavour == "replay" || n >= 5, "calls into the system do not show here");
    r.rep.max("kinds of calls that show when made on purpose", n as u64);
    r.rep.max("max system calls show, whoever makes them (1: yes)", crate::ambient::dispatched() as u64);
    r.rep.max("max a look at the arguments and the environment shows (1: yes)", crate::ambient::given_show() as u64);
    large_certs(r, 40);
    crash(r);
    r.phase = "values built by hand";
    built(r);
}

/// values built by hand
fn built(r: &mut Runner) {
    r.phase = "built integers, bit strings and slices of every size";
    for n in 0..=2usize {
        for i in 0..1u64 << (8 * n) {
            if r.mine() {
                r.run(BUILT, &[&[0], &i.to_be_bytes()[8 - n..]].concat());
            }
        }
    }
    for n in (0..100usize).chain([127, 128, 129, 255, 256, 1000, 4096]) {
        if !r.mine() {
            continue;
        }
        let b = r.g.rng.bytes(n);
        for kind in [0, 7] {
            r.run(BUILT, &[&[kind], &b[..]].concat());
        }
        for first in [0, 1, 0x7F, 0x80, 0xFF] {
            if n > 0 {
                let mut x = b.clone();
                x[0] = first;
                r.run(BUILT, &[&[0], &x[..]].concat());
            }
        }
        for unused in 0..=255u8 {
            r.run(BUILT, &[&[1, unused], &b[..]].concat());
            if unused < 9 {
                r.run(BUILT, &[&[1, unused], &vec![0xFF; n][..]].concat());
            }
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "built identifiers";
    for k in 0..128u8 {
        for v in 0..8u8 {
            if r.mine() {
                r.run(BUILT, &[2, k, v]);
                r.run(BUILT, &[3, k, v, 1, 6, 3, 1, 2, 3]);
                r.run(BUILT, &[6, 12, k, v]);
            }
        }
    }
    for e in 0..32 {
        for d in [-1i64, 0, 1] {
            if r.mine() {
                let x = (1u64 << e).wrapping_add(d as u64) as u32;
                for n in 1..6u8 {
                    let mut b = vec![2, 128 + 12 + n];
                    for _ in 0..12 + n {
                        b.push(200);
                        b.extend(x.to_be_bytes());
                    }
                    r.run(BUILT, &b);
                }
            }
        }
    }
    r.phase = "built extensions";
    for v in 0..512u32 {
        if r.mine() {
            let mut b = vec![3, 0, 9, v as u8, 1];
            b.extend((0..9).map(|i| (v >> i) as u8 & 1));
            r.run(BUILT, &b);
        }
    }
    for kind in 0..9u8 {
        for n in 0..12u8 {
            if r.mine() {
                let mut b = vec![3, 5, 9, 1, 2, n];
                for i in 0..n {
                    b.extend([kind, 3, b'a', b'b' + i, b'c']);
                }
                r.run(BUILT, &b);
            }
        }
    }
    for length in [0u32, 1, 127, 128, 255, 256, 65535, 1 << 31, u32::MAX, (1 << 31) - 1] {
        for ca in 0..2u8 {
            r.run(BUILT, &[&[3, 5, 9, 1, 3, ca, 1], &length.to_be_bytes()[..]].concat());
        }
    }
    for v in 0..64u8 {
        if r.mine() {
            let mut b = vec![4];
            for i in 0..6 {
                b.push(v >> i);
                if v >> i & 1 == 1 {
                    b.extend([2, b'A' + i, b'z']);
                }
            }
            r.run(BUILT, &b);
        }
    }
    r.phase = "built from arguments of every kind";
    for _ in 0..if r.o.thorough { 200_000 } else { 10_000 } {
        let (e, b) = r.g.source(Src::Built);
        r.seed(e, b);
        if r.stop() {
            return;
        }
    }
}

fn lossless(r: &mut Runner) {
    for b in small_trees(r, false) {
        trailing(r, DER, &b);
    }
    all_short(r, DER, if r.o.thorough { 3 } else { 2 });
    for id in [1, 2, 3, 6, 0x0C, 0x13, 0x16, 0x80] {
        all_contents(r, id, 2);
    }
    pairs(r);
    boundaries(r);
    boundaries(r);
    deep(r);
    seed_damage(r, &[DER], true);
    let s = sources(26);
    damage(r, &s, if r.o.thorough { 200 } else { 10 }, false);
}

// ------------------------------------------------------------------------------------ C06

fn lengths(r: &mut Runner) {
    r.rep.refusal = c(6);
    seed_wrapped(r, &[DER, CERT]);
    for b in small_trees(r, false) {
        wrapped_inside(r, DER, &b);
    }
    r.phase = "every length encoding";
    // identifiers whose contents can have any size
    let any: [(u8, u8); 6] = [(4, 0), (0x0C, b'a'), (0x80, 1), (0x9E, 0xFF), (2, 1), (6, 1)];
    for (id, fill) in any {
        for n in 0..=300usize {
            if !r.mine() {
                continue;
            }
            if n == 0 && (id == 2 || id == 6) {
                continue;
            }
            let body = vec![fill; n];
            let mut forms: Vec<Vec<u8>> = vec![enc::len_octets(n)];
            for k in 1..=9usize {
                let mut v = vec![0x80 | k as u8];
                let be = (n as u128).to_be_bytes();
                v.extend_from_slice(&be[16 - k..]);
                forms.push(v);
            }
            for f in forms {
                for delta in [0isize, -1, 1, 5] {
                    let m = (n as isize + delta).max(0) as usize;
                    let mut body = body.clone();
                    body.resize(m, fill);
                    let e = [&[id][..], &f, &body].concat();
                    r.run(DER, &e);
                    if n < 140 {
                        // one octet too long for its container, but not for the input
                        let outer = enc::tlv(0x30, &e);
                        r.run(DER, &[&outer[..], &[5, 0, 5, 0]].concat());
                        r.run(DER, &[&enc::tlv(0xA1, &outer)[..], &[4, 4, 1, 2, 3, 4]].concat());
                    }
                }
            }
            if r.stop() {
                return;
            }
        }
    }
    // lengths of any number of octets, their contents present
    r.phase = "every count of length octets";
    for k in (1..=126usize).filter(|k| *k <= 20 || k % 7 == 0 || *k > 120) {
        for v in [0u64, 1, 2, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537] {
            if !r.mine() {
                continue;
            }
            let mut f = vec![0u8; k.max(8)];
            let n = f.len();
            f[n - 8..].copy_from_slice(&v.to_be_bytes());
            let f = &f[n - k..];
            for id in [4u8, 0x0C, 0x80] {
                let e = [&[id, 0x80 | k as u8][..], f, &vec![b'a'; v as usize]].concat();
                r.run(DER, &e);
                r.run(DER, &enc::tlv(0x30, &e));
            }
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "huge contents";
    for (i, v) in [
        0xFF_FFFFu64,
        0x100_0000,
        0x100_0001,
        0x7FFF_FFFF,
        0x8000_0000,
        0x8000_0001,
        0xFFFF_FFFE,
        0xFFFF_FFFF,
        0x1_0000_0000,
        0x1_0000_0001,
        0x1_0000_0010,
        0x2_0000_0080,
    ]
    .into_iter()
    .enumerate()
    {
        if i % r.o.workers != r.o.worker {
            continue;
        }
        for k in 3..=16usize {
            let be = (v as u128).to_be_bytes();
            if v >> (8 * k) != 0 && k < 8 {
                continue;
            }
            let head = [&[4, 0x80 | k as u8][..], &be[16 - k..]].concat();
            let total = head.len() as u64 + v;
            for t in [total, total - 1, total + 1] {
                r.run(HUGE, &[&t.to_be_bytes()[..], &head].concat());
            }
            let outer = enc::len_octets(total as usize);
            let nested = [&[0x30][..], &outer, &head].concat();
            let total = nested.len() as u64 + v;
            for t in [total, total - 1] {
                r.run(HUGE, &[&t.to_be_bytes()[..], &nested].concat());
            }
            // the length cut to 32 bits would fit
            let t = head.len() as u64 + (v & 0xFFFF_FFFF);
            if v >> 32 != 0 && t < 1 << 20 {
                r.run(HUGE, &[&t.to_be_bytes()[..], &head].concat());
            }
        }
        if r.stop() {
            return;
        }
    }
    // every first length octet, followed by anything
    for id in [4u8, 0x30, 0x0C, 0x80, 0xA0, 5, 1, 2, 3, 6, 0x17, 0x31] {
        for first in 0..=255u8 {
            if !r.mine() {
                continue;
            }
            for tail in [
                &[][..],
                &[0],
                &[1, 0],
                &[0x7F, 0],
                &[0x80],
                &[0xFF],
                &[0, 0, 0, 0],
                &[0, 0, 0, 1, 0],
                &[0, 0, 0x80],
                &[0x7F, 0xFF, 0xFF, 0xFF, 0xFF],
                &[0xFF, 0xFF, 0xFF, 0xFF],
                &[0x80, 0, 0, 0],
                &[0, 0, 0],
                &[0, 0x80],
                &[0, 0xFF],
                &[1, 0, 0, 0, 0],
            ] {
                for pad in [0usize, 1, 130, 300] {
                    let e = [&[id, first][..], tail, &vec![0u8; pad]].concat();
                    r.run(DER, &e);
                    let e2 = [&enc::tlv(0x30, &e)[..], &vec![0u8; 10]].concat();
                    r.run(DER, &e2);
                }
            }
        }
    }
    // two length octets: exact, short and over-long contents
    r.phase = "two and three length octets";
    let step = if r.o.thorough { 1 } else { 97 };
    for n in (256..65536usize).step_by(step).chain([256, 257, 65534, 65535]) {
        if r.mine() {
            let e = enc::tlv(4, &vec![0x30; n]);
            r.run(DER, &e);
            r.run(DER, &e[..e.len() - 1]);
        }
        if r.stop() {
            return;
        }
    }
    let mut sizes = vec![65536usize, 65537, 65536 + 255, 0x1_0100, 0x1_FFFF, 0x2_0000, 0x80_000];
    if r.o.thorough {
        sizes.extend([0x7F_FFFF, 0x80_0000, 0xFF_FFFF, 0x100_0000, 0x100_0001, 0x101_0000]);
    }
    for n in sizes {
        if r.mine() {
            let e = enc::tlv(4, &vec![0x30; n]);
            r.run(DER, &e);
            r.run(DER, &e[..e.len() - 1]);
            r.run(DER, &[&e[..], &[0x05, 0]].concat());
            r.run(DER, &enc::tlv(0x30, &e));
        }
    }
    r.rep.refusal = 0;
    for (e, b) in seeds() {
        if matches!(e, DER | CERT) && r.mine() {
            r.phase = "forged lengths in certificates";
            let ts = enc::parse_tree(&b, 24);
            for node in 0..enc::count_all(&ts) {
                for _ in 0..6 {
                    let mut t = ts.clone();
                    if mutate::edit(&mut t, node, 9, &mut r.g) {
                        let b = enc::encode_all(&t);
                        r.run(e, &b);
                    }
                }
                if r.stop() {
                    return;
                }
            }
        }
    }
    let s = sources(6);
    damage(r, &s, if r.o.thorough { 100 } else { 6 }, true);
}

// ------------------------------------------------------------------------------------ C07

fn identifiers(r: &mut Runner) {
    r.phase = "identifier octets";
    for id in 0..=255u8 {
        r.run(IDENT, &[id]);
    }
    r.rep.refusal = c(7);
    let bodies: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![0xFF],
        vec![1],
        vec![0, 0],
        vec![0x2A, 3],
        b"abc".to_vec(),
        b"700101000000Z".to_vec(),
        b"19700101000000Z".to_vec(),
        vec![5, 0],
        vec![2, 1, 5],
        vec![0x30, 0],
        vec![2, 1, 5, 1, 1, 0xFF],
        vec![0xC3, 0xA9],
        vec![0, 0x80, 0xFF],
        vec![7, 0x80],
        enc::tlv(0x30, &[1, 1, 0]),
    ];
    for id in 0..=255u8 {
        if !r.mine() {
            continue;
        }
        for b in &bodies {
            for x in contexts(&enc::tlv(id, b)) {
                r.run(DER, &x);
            }
            // a second octet of a long tag
            for second in [0u8, 1, 0x1E, 0x1F, 0x20, 0x7F, 0x81, 0xFF] {
                let e = [&[id, second][..], &enc::len_octets(b.len()), b].concat();
                r.run(DER, &e);
                r.run(DER, &enc::tlv(0x30, &e));
                let e = [&[id, second, 1][..], &enc::len_octets(b.len()), b].concat();
                r.run(DER, &e);
            }
        }
        // at every place of a certificate, name and extension
        r.rep.refusal = 0;
        for s in [SEEDS[0], SEEDS[1], SEEDS[2], SEEDS[3]] {
            let ts = enc::parse_tree(s, 24);
            for node in 0..enc::count_all(&ts) {
                let mut t = ts.clone();
                if let Some((v, i)) = mutate::locate(&mut t, node) {
                    if let T::P(x, _) | T::C(x, _, _) = &mut v[i] {
                        *x = id;
                        let b = enc::encode_all(&t);
                        r.run(CERT, &b);
                        if node % 4 == 0 {
                            r.run(DER, &b);
                        }
                    }
                }
                if r.stop() {
                    return;
                }
            }
        }
        r.rep.refusal = c(7);
    }
    // every context-specific tag with every form in sequence
    for n in 0..31u8 {
        for form in [0x80u8, 0xA0] {
            if r.mine() {
                let body = enc::tlv(2, &[n]);
                let e = enc::tlv(form | n, &body);
                for x in contexts(&e) {
                    r.run(DER, &x);
                }
            }
        }
    }
    r.rep.refusal = 0;
}

// ------------------------------------------------------------------------------------ C08

fn contents(r: &mut Runner) {
    r.rep.refusal = c(8);
    for id in [1u8, 2, 4, 5, 0x0C, 0x13, 0x16] {
        all_contents(r, id, 2);
    }
    r.phase = "UTF-8 sequences";
    let conts = [0x00u8, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF];
    for id in [0x0Cu8, 0x13, 0x16] {
        for lead in 0x20..=255u8 {
            if !r.mine() {
                continue;
            }
            for a in conts {
                for b in conts {
                    for d in conts {
                        if lead < 0xE0 && d != 0x41 {
                            continue;
                        }
                        r.run(DER, &[id, 4, lead, a, b, d]);
                        if id == 0x0C {
                            r.run(DER, &[id, 3, lead, a, b]);
                            r.run(DER, &[0x30, 9, id, 5, b'x', lead, a, b, d, 5, 0]);
                        }
                    }
                }
            }
            if r.stop() {
                return;
            }
        }
    }
    if r.o.thorough {
        all_contents(r, 0x0C, 3);
    }
    // every scalar value
    r.phase = "every code point";
    // at both ends of a text, with the next one inside
    let step = if r.o.thorough { 1 } else { 2 };
    let mut cp = r.o.worker as u32 * step + (r.o.seed as u32) % step;
    while cp < 0x11_0000 {
        if let Some(ch) = char::from_u32(cp) {
            let s = ch.to_string();
            let inside = char::from_u32(cp ^ 1).map(String::from).unwrap_or_default();
            if r.o.thorough || cp % 14 < 2 {
                r.run(DER, &enc::tlv(0x0C, s.as_bytes()));
            }
            r.run(DER, &enc::tlv(0x0C, [&s[..], &inside, &s].concat().as_bytes()));
        }
        cp += r.o.workers as u32 * step;
        if r.stop() {
            return;
        }
    }
    // a bad octet at every position of texts of many sizes
    r.phase = "texts with one bad octet";
    for n in (1..70).chain([127, 128, 255, 256, 1000]) {
        for id in [0x0Cu8, 0x13, 0x16] {
            if !r.mine() {
                continue;
            }
            for at in 0..n.min(70) {
                for bad in [0x80u8, 0xC3, 0xFF, 0xE2, 0xC0] {
                    let mut s = vec![b'm'; n];
                    let i = if n > 70 { n - 1 - at } else { at };
                    s[i] = bad;
                    r.run(DER, &enc::tlv(id, &s));
                }
            }
            let s: Vec<u8> = r.g.utf8(n);
            r.run(DER, &enc::tlv(id, &s));
        }
        if r.stop() {
            return;
        }
    }
    sound_contents(r, 0x0C);
    sound_contents(r, 0x13);
    boundaries(r);
    texts(r, if r.o.thorough { 70_000 } else { 3_000 });
    // lengths 0..5 of booleans and NULLs, in every context
    r.phase = "contexts";
    for id in [1u8, 5, 2] {
        for body in [&[][..], &[0], &[0xFF], &[1], &[0xFE], &[0x80], &[0xFF, 0xFF], &[0, 0], &[0xFF, 0], &[0, 0xFF, 0xFF]] {
            for x in contexts(&enc::tlv(id, body)) {
                r.run(DER, &x);
            }
        }
    }
    r.rep.refusal = 0;
}

fn integers(r: &mut Runner) {
    all_contents(r, 2, if r.o.thorough { 3 } else { 2 });
    sound_contents(r, 2);
    r.phase = "integers of three to six octets";
    let edge = [0x00u8, 0x01, 0x7E, 0x7F, 0x80, 0x81, 0xFE, 0xFF];
    for hi in 0..=255u8 {
        if !r.mine() {
            continue;
        }
        for b in 0..=255u8 {
            for x in edge {
                r.run(DER, &[2, 3, hi, b, x]);
                for y in edge {
                    r.run(DER, &[2, 4, hi, b, x, y]);
                    if edge.contains(&b) || edge.contains(&hi) {
                        for z in [0u8, 1, 0x80, 0xFF] {
                            r.run(DER, &[2, 5, hi, b, x, y, z]);
                        }
                    }
                }
            }
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "powers of two and their neighbours";
    for e in 0..120u32 {
        for d in -2..=2i128 {
            for s in [1i128, -1] {
                if r.mine() {
                    let v = s * (1i128 << e) + d;
                    let x = enc::int(v).bytes();
                    r.run(DER, &x);
                    r.run(CERT, &with_params(&x));
                }
            }
        }
    }
    r.phase = "integers of every size";
    for n in 1..200usize {
        for first in [0x01u8, 0x7F, 0x80, 0xFF, 0x00, 0xC3] {
            if r.mine() {
                let mut v = r.g.rng.bytes(n);
                v[0] = first;
                if n > 1 && !der_ref::int_minimal(&v) {
                    v[1] ^= 0x80;
                }
                r.run(DER, &enc::tlv(2, &v));
            }
        }
    }
}

fn bit_strings(r: &mut Runner) {
    all_contents(r, 3, 2);
    r.phase = "bit strings";
    for unused in 0..=9u8 {
        for v in 0..=65535u32 {
            if r.o.thorough || v % 3 == 0 || v < 512 || v.count_ones() < 3 {
                if r.mine() {
                    r.run(DER, &[3, 3, unused, (v >> 8) as u8, v as u8]);
                }
            }
        }
        if r.stop() {
            return;
        }
    }
    for n in (0..140usize).chain([255, 256, 257, 1000, 4096, 65535]) {
        for unused in 0..=8u8 {
            if !r.mine() {
                continue;
            }
            for k in 0..4 {
                let mut b = match k {
                    0 => vec![0xFF; n],
                    1 => vec![0; n],
                    _ => r.g.rng.bytes(n),
                };
                if k != 3 {
                    if let Some(l) = b.last_mut() {
                        *l &= ((0xFFu16 << unused) & 0xFF) as u8;
                    }
                }
                let e = enc::tlv(3, &[&[unused][..], &b].concat());
                r.run(DER, &e);
                if n < 40 {
                    for x in contexts(&e) {
                        r.run(DER, &x);
                    }
                    r.run(CERT, &with_params(&e));
                }
            }
            if r.stop() {
                return;
            }
        }
    }
    // as unique identifiers, keys and signatures
    r.phase = "bit strings of certificates";
    for unused in 0..8u8 {
        for n in 0..20usize {
            if r.mine() {
                let mut s = r.g.cert();
                s.version = 2;
                let mut bs = || {
                    let mut b = r.g.rng.bytes(n);
                    if let Some(l) = b.last_mut() {
                        *l &= 0xFF << unused;
                    }
                    (if n == 0 { 0 } else { unused }, b)
                };
                s.key = bs();
                s.signature = bs();
                s.issuer_uid = Some(bs());
                s.subject_uid = Some(bs());
                r.run(CERT, &s.tree().bytes());
            }
        }
    }
}

fn oids(r: &mut Runner) {
    all_contents(r, 6, if r.o.thorough { 3 } else { 2 });
    sound_contents(r, 6);
    r.phase = "three octets";
    let edge = [0x00u8, 0x01, 0x27, 0x28, 0x4F, 0x50, 0x7F, 0x80, 0x81, 0x82, 0x83, 0x87, 0x88, 0x8F, 0x90, 0xBF, 0xC0, 0xFF];
    for a in 0..=255u8 {
        if !r.mine() {
            continue;
        }
        for b in edge {
            for d in edge {
                r.run(DER, &[6, 3, a, b, d]);
                for e in edge {
                    r.run(DER, &[6, 4, a, b, d, e]);
                }
            }
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "arcs around every size";
    let mut vals: Vec<u64> = Vec::new();
    for e in 0..64u32 {
        for d in -2..=2i64 {
            vals.push((1u64 << e).wrapping_add(d as u64));
        }
    }
    for b in [39u64, 40, 79, 80, 119, 120, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 268435455 + 80, 4294967295, 4294967296, 4294967295 + 80, 4294967296 + 80] {
        for d in 0..=2 {
            vals.push(b - 1 + d);
        }
    }
    vals.sort();
    vals.dedup();
    let raw = |subs: &[u64]| {
        // subidentifiers as such, without the rule for the first
        let mut v = Vec::new();
        for s in subs {
            let mut g = vec![(s & 0x7F) as u8];
            let mut x = s >> 7;
            while x > 0 {
                g.push((x & 0x7F) as u8 | 0x80);
                x >>= 7;
            }
            g.reverse();
            v.extend(g);
        }
        v
    };
    for v in &vals {
        if !r.mine() {
            continue;
        }
        for subs in [vec![*v], vec![42, *v], vec![*v, *v], vec![42, *v, 1], vec![42, 1, 1, *v], vec![80, *v], vec![*v, 3]] {
            let b = raw(&subs);
            r.run(DER, &enc::tlv(6, &b));
            // padded, and cut inside the last subidentifier
            let mut p = b.clone();
            p.insert(0, 0x80);
            r.run(DER, &enc::tlv(6, &p));
            let mut p = b.clone();
            let at = p.iter().position(|x| *x < 0x80).map_or(0, |i| i + 1);
            p.insert(at, 0x80);
            r.run(DER, &enc::tlv(6, &p));
            let mut p = b.clone();
            *p.last_mut().unwrap() |= 0x80;
            r.run(DER, &enc::tlv(6, &p));
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "well-known identifiers and their neighbours";
    for pool in [r.g.known.clone()] {
        for o in &pool {
            if !r.mine() {
                continue;
            }
            let mut near: Vec<Vec<u64>> = vec![o.to_vec()];
            for k in 2..o.len() {
                for d in [1i64, -1, 2, -2, 128, 256, 1 << 16] {
                    let mut x = o.to_vec();
                    x[k] = x[k].wrapping_add(d as u64) & 0xFFF_FFFF;
                    near.push(x);
                }
                near.push(o[..k].to_vec());
                let mut x = o.to_vec();
                x.insert(k, 1);
                near.push(x);
                let mut x = o.to_vec();
                x.remove(k);
                near.push(x);
            }
            for t in 0..20u64 {
                near.push([&o[..], &[t]].concat());
                let mut x = o.to_vec();
                *x.last_mut().unwrap() = t;
                near.push(x);
            }
            if o[0] < 2 {
                let mut x = o.to_vec();
                x[0] ^= 1;
                near.push(x);
                let mut x = o.to_vec();
                x[1] = (x[1] + 1) % 40;
                near.push(x);
            }
            let mut x = o.to_vec();
            x[0] = 2;
            near.push(x);
            for a in near {
                let e = enc::oid(&a).bytes();
                r.run(DER, &e);
                r.run(DER, &enc::tlv(0x30, &[&e[..], &[5, 0]].concat()));
            }
        }
    }
    // everything in the arcs of the attribute types and algorithms
    for base in [&[2u64, 5, 4][..], &[1, 2, 840, 113549, 1, 1], &[1, 2, 840, 113549, 1, 9], &[1, 3, 101], &[2, 5, 29]] {
        for t in 0..260u64 {
            if r.mine() {
                r.run(DER, &enc::oid(&[base, &[t]].concat()).bytes());
            }
        }
    }
    r.phase = "many subidentifiers";
    for n in 1..150usize {
        if r.mine() {
            let b: Vec<u64> = (0..n).map(|_| r.g.arc()).collect();
            r.run(DER, &enc::tlv(6, &raw(&b)));
            r.run(DER, &enc::tlv(6, &vec![1; n]));
        }
    }
}

fn times(r: &mut Runner) {
    r.rep.refusal = c(12);
    let both = |r: &mut Runner, t: u64| {
        r.run(DER, &enc::tlv(0x18, cal::gen_string(t).as_bytes()));
        if t < gen::T_2050 {
            r.run(DER, &enc::tlv(0x17, cal::utc_string(t).as_bytes()));
        }
    };
    r.phase = "every day";
    let days = gen::T_MAX / 86400;
    let step = if r.o.thorough { 1 } else { 2 };
    let mut d = r.o.worker as u64;
    while d <= days {
        let s = match d % 4 {
            0 => 0,
            1 => 86399,
            _ => r.g.rng.u64() % 86400,
        };
        let t = d * 86400 + s;
        if d % 50_000 < 30_000 || r.o.thorough || t < gen::T_2050 {
            both(r, t);
        }
        d += r.o.workers as u64 * if t < gen::T_2050 { 1 } else { step };
        if r.stop() {
            return;
        }
    }
    r.phase = "month ends of every year";
    for y in 1970..=9999i64 {
        if !r.mine() {
            continue;
        }
        for (m, dd) in [(1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (2, 30), (4, 31), (6, 30), (0, 1), (13, 1)] {
            let s = format!("{y:04}{m:02}{dd:02}235959Z");
            r.run(DER, &enc::tlv(0x18, s.as_bytes()));
            if (1970..2050).contains(&y) {
                r.run(DER, &enc::tlv(0x17, s[2..].as_bytes()));
            }
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "every value of every field";
    for y in [0, 1, 1582, 1899, 1900, 1949, 1950, 1969, 1970, 1971, 1972, 1999, 2000, 2004, 2049, 2050, 2051, 2099, 2100, 2400, 9999] {
        for m in 0..100 {
            if !r.mine() {
                continue;
            }
            for d in 0..100 {
                let s = format!("{y:04}{m:02}{d:02}120000Z");
                r.run(DER, &enc::tlv(0x18, s.as_bytes()));
                r.run(DER, &enc::tlv(0x17, s[2..].as_bytes()));
            }
        }
        for v in 0..100 {
            if !r.mine() {
                continue;
            }
            for w in [0, 1, 23, 24, 58, 59, 60, 61, 99] {
                for s in [format!("{y:04}0615{v:02}{w:02}00Z"), format!("{y:04}0615{w:02}{v:02}00Z"), format!("{y:04}061512{v:02}{w:02}Z"), format!("{y:04}061512{w:02}{v:02}Z"), format!("{y:04}1231{w:02}59{v:02}Z")] {
                    r.run(DER, &enc::tlv(0x18, s.as_bytes()));
                    r.run(DER, &enc::tlv(0x17, s[2..].as_bytes()));
                }
            }
        }
        if r.stop() {
            return;
        }
    }
    for yy in 0..100 {
        for s in [format!("{yy:02}0101000000Z"), format!("{yy:02}1231235959Z"), format!("{yy:02}0229000000Z")] {
            r.run(DER, &enc::tlv(0x17, s.as_bytes()));
        }
    }
    if r.mine() {
        for y in 0..10_000 {
            r.run(DER, &enc::tlv(0x18, format!("{y:04}0301000000Z").as_bytes()));
        }
    }
    // many times in each input: every second of a leap year, in one type or the other, and
    // seconds of the other years
    r.phase = "every second of a year";
    let years = if r.o.thorough { 40 } else { 1 };
    for k in 0..years {
        let y = if k == 0 { 2000 } else { 1970 + (k * 37) % 79 };
        let first = cal::days_from_civil(y, 1, 1) as u64 * 86400;
        for hour in 0..366 * 24 {
            if !r.mine() {
                continue;
            }
            let mut batch = Vec::with_capacity(3600 * 18);
            for i in 0..3600 {
                let t = first + hour * 3600 + i;
                if (i + k as u64) % 2 == 0 {
                    batch.extend([0x17, 13]);
                    batch.extend(cal::utc_string(t).as_bytes());
                } else {
                    batch.extend([0x18, 15]);
                    batch.extend(cal::gen_string(t).as_bytes());
                }
            }
            r.run(DER, &batch);
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "seconds of every year";
    for y in 1970..=9999 {
        if !r.mine() {
            continue;
        }
        let first = cal::days_from_civil(y, 1, 1) as u64 * 86400;
        let last = cal::days_from_civil(y + 1, 1, 1) as u64 * 86400 - 1;
        let mut batch = vec![];
        for _ in 0..if r.o.thorough { 5000 } else { 500 } {
            let t = first + r.g.rng.u64() % (last - first + 1);
            batch.extend([0x18, 15]);
            batch.extend(cal::gen_string(t).as_bytes());
        }
        r.run(DER, &batch);
        if r.stop() {
            return;
        }
    }
    r.phase = "every octet at every position";
    for (id, s) in [(0x17u8, &b"200229235959Z"[..]), (0x17, b"991231000000Z"), (0x18, b"20240229235959Z"), (0x18, b"19991231000000Z"), (0x18, b"20500101000000Z")] {
        for at in 0..=s.len() {
            if !r.mine() {
                continue;
            }
            for v in 0..=255u8 {
                let mut x = s.to_vec();
                if at < s.len() {
                    x[at] = v;
                    r.run(DER, &enc::tlv(id, &x));
                    r.run(CERT, &cert_times(id, &x, 0x18, b"99991231235959Z"));
                }
                let mut x = s.to_vec();
                x.insert(at, v);
                r.run(DER, &enc::tlv(id, &x));
                // the other type with these contents
                r.run(DER, &enc::tlv(id ^ 0x0F, &x));
            }
            let mut x = s.to_vec();
            x.truncate(at);
            r.run(DER, &enc::tlv(id, &x));
            for tail in [&b"Z"[..], b"+0000", b"-0000", b"+0100", b".0Z", b".5Z", b",5Z", b"Z\x00", b"ZZ", b"z", b"0Z", b"Z0", b"+00Z", b" Z"] {
                let y = [&x[..], tail].concat();
                r.run(DER, &enc::tlv(id, &y));
            }
            if r.stop() {
                return;
            }
        }
    }
    r.phase = "pairs of replaced octets";
    let pool = b"0123456789Z+-.: /\x00\xff";
    for (id, s) in [(0x17u8, &b"200229235959Z"[..]), (0x18, b"20240229235959Z")] {
        for i in 0..s.len() {
            for j in i + 1..s.len() {
                if !r.mine() {
                    continue;
                }
                for a in pool {
                    for b in pool {
                        let mut x = s.to_vec();
                        x[i] = *a;
                        x[j] = *b;
                        r.run(DER, &enc::tlv(id, &x));
                    }
                }
            }
        }
        if r.stop() {
            return;
        }
    }
    r.rep.refusal = 0;
}

/// a certificate with the given validity elements
fn cert_times(id1: u8, t1: &[u8], id2: u8, t2: &[u8]) -> Vec<u8> {
    let tbs = [
        &[2u8, 1, 1, 0x30, 5, 6, 3, 0x2B, 0x65, 0x70, 0x30, 0][..],
        &enc::tlv(0x30, &[enc::tlv(id1, t1), enc::tlv(id2, t2)].concat()),
        &[0x30, 0, 0x30, 10, 0x30, 5, 6, 3, 0x2B, 0x65, 0x70, 3, 1, 0],
    ]
    .concat();
    enc::tlv(0x30, &[&enc::tlv(0x30, &tbs)[..], &[0x30, 5, 6, 3, 0x2B, 0x65, 0x70, 3, 1, 0]].concat())
}

// ------------------------------------------------------------------------------- C13..C15

/// every combination of the optional parts
fn combos(r: &mut Runner) {
    r.phase = "combinations of optional fields";
    for version in 0..3u8 {
        for mask in 0..256u32 {
            if !r.mine() {
                continue;
            }
            let mut s = r.g.cert();
            s.version = version;
            s.issuer_uid = (mask & 1 != 0).then(|| r.g.bit_string());
            s.subject_uid = (mask & 2 != 0).then(|| r.g.bit_string());
            s.exts = (mask & 4 != 0).then(|| r.g.ext_list());
            if mask & 8 != 0 {
                s.alg.1 = None;
            }
            if mask & 16 != 0 {
                s.key_alg.1 = None;
            }
            s.not_before.1 = mask & 32 != 0;
            s.not_after.1 = mask & 64 != 0;
            if mask & 128 != 0 {
                s.subject.clear();
            }
            r.run(CERT, &s.tree().bytes());
            // a different outer algorithm, explicit v1
            let mut k = match s.tree() {
                T::C(_, _, k) => k,
                _ => unreachable!(),
            };
            let a = r.g.arcs();
            k[1] = enc::seq(vec![enc::oid(&a), T::P(5, vec![])]);
            r.run(CERT, &enc::seq(k).bytes());
        }
        if r.stop() {
            return;
        }
    }
}

fn certs(r: &mut Runner) {
    combos(r);
    for b in small_trees(r, true).into_iter().take(1) {
        wrapped_inside(r, CERT, &b);
    }
    large_certs(r, 720);
    huge_certs(r, true, true);
    r.phase = "parameters of every kind";
    for k in KINDS {
        for _ in 0..6 {
            if r.mine() {
                let mut s = r.g.cert();
                s.alg.1 = Some(r.g.primitive(k));
                s.key_alg.1 = Some(r.g.primitive(k));
                r.run(CERT, &s.tree().bytes());
            }
        }
    }
    for i in 0..256u32 {
        if r.mine() {
            let mut s = r.g.cert();
            s.serial = enc::int_contents(i as i128 - 128);
            r.run(CERT, &s.tree().bytes());
            let mut s = r.g.cert();
            let n = 1 + (i as usize % 40);
            s.serial = r.g.rng.bytes(n);
            s.serial[0] = s.serial[0] & 0x7F | 1;
            r.run(CERT, &s.tree().bytes());
        }
    }
    let ops = r.o.ops / 2;
    r.phase = "generated certificates";
    for _ in 0..ops {
        let b = r.g.cert().tree().bytes();
        r.seed(CERT, b);
        if r.stop() {
            return;
        }
    }
}

fn cert_damage(r: &mut Runner) {
    combos(r);
    for b in small_trees(r, true) {
        trailing(r, CERT, &b);
    }
    if let Some(b) = small_trees(r, true).first() {
        wrapped(r, CERT, b);
    }
    for b in small_trees(r, true) {
        wrapped_inside(r, CERT, &b);
    }
    seed_damage(r, &[CERT], true);
    // one field more, less, repeated or moved at every place of small certificates
    let rounds = if r.o.thorough { 400 } else { 16 };
    for _ in 0..rounds {
        let mut s = r.g.cert();
        // small: names and extensions are judged elsewhere
        s.issuer.truncate(1);
        s.subject.truncate(1);
        if let Some(e) = &mut s.exts {
            e.truncate(1);
        }
        let b = s.tree().bytes();
        if b.len() < 1500 {
            r.seed(CERT, b.clone());
            r.edits(CERT, &b, if r.o.thorough { 3 } else { 1 });
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "an extra element at every place";
    for _ in 0..if r.o.thorough { 60 } else { 4 } {
        let mut s = r.g.cert();
        s.issuer.truncate(1);
        s.subject.truncate(1);
        let t = s.tree();
        let base = vec![t];
        let n = enc::count_all(&base);
        for node in 0..n {
            for k in KINDS {
                for after in [0usize, 1] {
                    let mut ts = base.clone();
                    let e = r.g.primitive(k);
                    if let Some((v, i)) = mutate::locate(&mut ts, node) {
                        v.insert(i + after, e.clone());
                    }
                    let b = enc::encode_all(&ts);
                    r.run(CERT, &b);
                    let mut ts = base.clone();
                    if let Some((v, i)) = mutate::locate(&mut ts, node) {
                        v[i] = e;
                    }
                    let b = enc::encode_all(&ts);
                    r.run(CERT, &b);
                }
            }
            if r.stop() {
                return;
            }
        }
    }
    r.phase = "a tagged element at every place";
    let mut g = Gen::new(Rng::new(r.o.seed, 4343));
    let mut plain = small_trees(&mut *r, true);
    for uids in [false, true] {
        let mut s = g.cert();
        s.version = 2;
        s.issuer.truncate(1);
        s.subject.truncate(1);
        s.issuer_uid = uids.then(|| (0, vec![1, 2]));
        s.subject_uid = uids.then(|| (0, vec![3]));
        s.exts = Some(vec![g.ext()]);
        plain.insert(0, s.tree().bytes());
    }
    for t in plain {
        let base = enc::parse_tree(&t, 24);
        let n = enc::count_all(&base);
        for node in 0..n {
            for tag in 0..=30u8 {
                for body in [&[][..], &[5, 0], &[7]] {
                    for id in [0xA0 | tag, 0x80 | tag] {
                        for after in [0usize, 1] {
                            if !r.mine() {
                                continue;
                            }
                            let mut ts = base.clone();
                            if let Some((v, i)) = mutate::locate(&mut ts, node) {
                                v.insert(i + after, T::P(id, body.to_vec()));
                            }
                            let b = enc::encode_all(&ts);
                            r.run(CERT, &b);
                        }
                    }
                }
            }
            if r.stop() {
                return;
            }
        }
    }
    r.phase = "versions";
    for v in -300..300i128 {
        if r.mine() {
            let mut s = r.g.cert();
            s.version = 2;
            let mut k = s.tbs_kids();
            k[0] = enc::ctx(0, vec![enc::int(v)]);
            let b = rewrap(&s, k);
            r.run(CERT, &b);
        }
    }
    for body in [&[2u8, 2, 0, 2][..], &[2, 4, 1, 0, 0, 2], &[2, 5, 1, 0, 0, 0, 2], &[2, 9, 1, 0, 0, 0, 0, 0, 0, 0, 2], &[2, 1, 2, 5, 0], &[], &[2, 0], &[4, 1, 2], &[1, 1, 0xFF], &[2, 1], &[2, 1, 2, 2, 1, 2], &[2, 5, 0xFF, 0, 0, 0, 2], &[2, 2, 1, 2], &[2, 3, 1, 0, 2], &[2, 3, 0, 0, 2]] {
        for id in [0xA0u8, 0x80, 0xA1, 0xA4] {
            let s = r.g.cert();
            let mut k = s.tbs_kids();
            if s.version > 0 {
                k.remove(0);
            }
            k.insert(0, T::P(id, body.to_vec()));
            let b = rewrap(&s, k);
            r.run(CERT, &b);
        }
    }
}

fn rewrap(s: &CertSpec, tbs: Vec<T>) -> Vec<u8> {
    match s.tree() {
        T::C(id, p, mut k) => {
            k[0] = enc::seq(tbs);
            T::C(id, p, k).bytes()
        }
        _ => unreachable!(),
    }
}

fn signed(r: &mut Runner) {
    combos(r);
    large_certs(r, 720);
    huge_certs(r, true, false);
    r.phase = "to-be-signed parts of every size";
    // a certificate's tbs part grown octet by octet through the length forms
    for n in (0..300usize).chain(65_100..65_330) {
        if !r.mine() || (n > 65_000 && n % 7 != 0 && !r.o.thorough) {
            continue;
        }
        let mut s = r.g.cert();
        s.key = (0, vec![0x5A; n]);
        s.version = 2;
        s.issuer.clear();
        s.subject.clear();
        s.issuer_uid = None;
        s.subject_uid = None;
        s.exts = None;
        s.alg = (vec![1, 3, 101, 112], None);
        s.key_alg = s.alg.clone();
        s.signature = (0, vec![0xA5; n % 300]);
        let b = s.tree().bytes();
        r.run(CERT, &b);
        if r.stop() {
            return;
        }
    }
    let ops = r.o.ops / 2;
    r.phase = "generated certificates";
    for _ in 0..ops {
        let b = r.g.cert().tree().bytes();
        r.seed(CERT, b);
        if r.stop() {
            return;
        }
    }
}

// ------------------------------------------------------------------------------- C16..C20

fn in_list(contents: &[u8]) -> Vec<u8> {
    Gen::cert_around_ext(&enc::tlv(0x30, &enc::tlv(0x30, contents)))
}

fn known(kind: usize, critical: Option<u8>, value: &[u8]) -> Vec<u8> {
    let mut b = enc::oid(gen::EXT_OIDS[kind]).bytes();
    if let Some(v) = critical {
        b.extend([1, 1, v]);
    }
    b.extend(enc::tlv(4, value));
    b
}

/// the contents of an extension of that kind, the same for all workers
fn sample_ext(r: &Runner, kind: usize) -> Vec<u8> {
    let mut g = Gen::new(Rng::new(r.o.seed, 5000 + kind as u64));
    loop {
        let b = g.ext_contents(kind);
        if b.len() > 12 && b.len() < 120 {
            return b;
        }
    }
}

fn ext_wrapped(r: &mut Runner, kinds: &[usize]) {
    seed_wrapped(r, &[EXT]);
    for k in kinds {
        for i in 0..4u64 {
            let mut g = Gen::new(Rng::new(r.o.seed + i, 5000 + *k as u64));
            let b = g.ext_contents(*k);
            if b.len() < 300 {
                wrapped_inside(r, EXT, &b);
            }
        }
    }
}

/// an extension value alone, and in a list among others
fn value(r: &mut Runner, kind: usize, v: &[u8]) {
    let x = known(kind, None, v);
    r.run(EXT, &x);
    if r.rep.evals % 8 == 0 {
        r.run(CERT, &in_list(&x));
        let other = enc::tlv(0x30, &[&[6u8, 3, 0x2B, 0x65, 0x70][..], &[4, 1, 7]].concat());
        let l = [&other[..], &enc::tlv(0x30, &x)].concat();
        r.run(CERT, &Gen::cert_around_ext(&enc::tlv(0x30, &l)));
    }
}

fn ext_lists(r: &mut Runner) {
    large_certs(r, 360);
    huge_certs(r, false, true);
    for kind in 0..7 {
        let e = sample_ext(r, kind);
        let l = [enc::tlv(0x30, &known(4, None, &[0x30, 0])), enc::tlv(0x30, &e), enc::tlv(0x30, &[6, 1, 42, 4, 0])].concat();
        wrapped_inside(r, CERT, &Gen::cert_around_ext(&enc::tlv(0x30, &l)));
    }
    r.phase = "lists of every length and order";
    let rounds = if r.o.thorough { 4000 } else { 300 };
    for _ in 0..rounds {
        let b = r.g.ext_cert();
        r.seed(CERT, b);
        if r.stop() {
            return;
        }
    }
    for a in 0..8usize {
        for b in 0..8usize {
            for crit in 0..4 {
                if !r.mine() {
                    continue;
                }
                let (x, y) = (r.g.ext_val(a), r.g.ext_val(b));
                if x.arcs() == y.arcs() {
                    continue;
                }
                let l = [gen::ExtSpec { critical: crit & 1 != 0, val: x }, gen::ExtSpec { critical: crit & 2 != 0, val: y }];
                let t = gen::ext_list_t(&l);
                let whole = t.bytes();
                r.run(CERT, &Gen::cert_around_ext(&whole));
                if whole.len() < 300 {
                    // the contents cut at every octet, the container's length kept in step
                    let T::C(_, _, k) = &t else { unreachable!() };
                    let body = enc::encode_all(k);
                    for n in 0..body.len() {
                        r.run(CERT, &Gen::cert_around_ext(&enc::tlv(0x30, &body[..n])));
                    }
                    for junk in [&[0u8][..], &[5, 0], &[0x30, 0], &[0x30], &[4, 0]] {
                        r.run(CERT, &Gen::cert_around_ext(&enc::tlv(0x30, &[&body[..], junk].concat())));
                        r.run(CERT, &Gen::cert_around_ext(&[&whole[..], junk].concat()));
                    }
                }
            }
            if r.stop() {
                return;
            }
        }
    }
    criticality(r);
    seed_damage(r, &[EXT], true);
    let s = [Src::ExtList, Src::AnyExt, Src::ExtList];
    damage(r, &s, if r.o.thorough { 200 } else { 12 }, true);
}

fn criticality(r: &mut Runner) {
    r.phase = "criticality";
    for kind in 0..6 {
        let v = enc::encode_all(&r.g.ext_val(kind).content());
        for crit in 0..=255u8 {
            if r.mine() {
                let x = known(kind, Some(crit), &v);
                r.run(EXT, &x);
                r.run(CERT, &in_list(&x));
            }
        }
        for crit in [&[1u8, 0][..], &[1, 2, 0xFF, 0xFF], &[2, 1, 0xFF], &[1, 1, 0xFF, 1, 1, 0xFF], &[1, 1, 0xFF, 5, 0], &[5, 0], &[0x81, 1, 0xFF], &[0x80, 1, 0xFF]] {
            let mut x = enc::oid(gen::EXT_OIDS[kind]).bytes();
            x.extend_from_slice(crit);
            x.extend(enc::tlv(4, &v));
            r.run(EXT, &x);
            r.run(CERT, &in_list(&x));
        }
    }
}

fn own_damage(r: &mut Runner, kinds: &[usize]) {
    let rounds = if r.o.thorough { 300 } else { 24 };
    for i in 0..rounds {
        let k = kinds[i % kinds.len()];
        let (_, b) = r.g.source(Src::Ext(k));
        r.seed(EXT, b.clone());
        if b.len() > 400 {
            continue;
        }
        r.edits(EXT, &b, 2);
        r.octets(EXT, &b);
        r.phase = "every cut of the value";
        // the value cut at every octet, with the octet string's length kept in step
        let v = enc::encode_all(&r.g.ext_val(k).content());
        if v.len() < 300 {
            for n in 0..v.len() {
                value(r, k, &v[..n]);
            }
            for junk in [&[0u8][..], &[5, 0], &[0x30, 0], &[4, 0], &[0xFF], &v] {
                value(r, k, &[&v[..], junk].concat());
                value(r, k, &[junk, &v[..]].concat());
            }
            // contents of a container cut at every octet
            if v.first() == Some(&0x30) {
                if let Some(T::C(_, _, kids)) = enc::parse_tree(&v, 3).into_iter().next() {
                    let body = enc::encode_all(&kids);
                    for n in 0..body.len() {
                        value(r, k, &enc::tlv(0x30, &body[..n]));
                    }
                    for junk in [&[0u8][..], &[5, 0], &[0x30, 0], &[0x82], &[0x82, 1], &[6, 1]] {
                        value(r, k, &enc::tlv(0x30, &[&body[..], junk].concat()));
                    }
                }
            }
        }
        if r.stop() {
            return;
        }
    }
    // the value of one kind under the identifier of another
    r.phase = "values under another identifier";
    for k in kinds {
        for other in 0..7 {
            for _ in 0..10 {
                let v = enc::encode_all(&r.g.ext_val(other).content());
                value(r, *k, &v);
            }
        }
    }
    // identifiers close to the known ones
    r.phase = "neighbouring identifiers";
    for k in kinds {
        let o = gen::EXT_OIDS[*k];
        let v = enc::encode_all(&r.g.ext_val(*k).content());
        let mut near: Vec<Vec<u64>> = (0..70u64).map(|t| [&o[..o.len() - 1], &[t]].concat()).collect();
        near.push([o, &[0]].concat());
        near.push(o[..o.len() - 1].to_vec());
        for a in near {
            let x = [enc::oid(&a).bytes(), enc::tlv(4, &v)].concat();
            r.run(EXT, &x);
        }
    }
}

fn rights(r: &mut Runner) {
    large_certs(r, 360);
    huge_certs(r, false, true);
    ext_wrapped(r, &[1, 3]);
    r.phase = "every key usage";
    for u in 0..9u8 {
        value(r, 1, &[3, 1, u]);
        for a in 0..=255u8 {
            value(r, 1, &[3, 2, u, a]);
        }
        for v in 0..65536u32 {
            if (r.o.thorough || u == 0 || u == 7 || v % 5 == 0) && r.mine() {
                value(r, 1, &[3, 3, u, (v >> 8) as u8, v as u8]);
            }
        }
        for v in 0..2000u32 {
            if r.mine() {
                let mut b = r.g.rng.bytes(3 + v as usize % 3);
                let l = b.last_mut().unwrap();
                *l &= ((0xFFu16 << u) & 0xFF) as u8;
                value(r, 1, &enc::tlv(3, &[&[u][..], &b].concat()));
            }
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "basic constraints";
    let mut lens: Vec<Vec<u8>> = vec![];
    for e in 0..70u32 {
        for d in -2..=2i128 {
            lens.push(enc::int_contents((1i128 << e) + d));
            lens.push(enc::int_contents(-(1i128 << e) + d));
        }
    }
    for v in 0..600i128 {
        lens.push(enc::int_contents(v));
    }
    lens.extend([vec![], vec![0, 0], vec![0, 1], vec![0, 0, 0, 1], vec![0, 0x80, 0, 0, 0], vec![0, 0, 0, 0, 1], vec![0xFF, 0xFF], vec![1, 0, 0, 0, 0]]);
    for ca in [&[][..], &[1u8, 1, 0xFF], &[1, 1, 0], &[1, 1, 1], &[1, 0], &[1, 2, 0xFF, 0xFF]] {
        value(r, 3, &enc::tlv(0x30, ca));
        for l in &lens {
            if !r.mine() {
                continue;
            }
            let i = enc::tlv(2, l);
            value(r, 3, &enc::tlv(0x30, &[ca, &i].concat()));
            value(r, 3, &enc::tlv(0x30, &[&i[..], ca].concat()));
            if l.len() == 1 {
                for junk in [&[0u8][..], &[5, 0], &[2, 1, 0], &[1, 1, 0xFF], &[2], &[0x80, 0]] {
                    value(r, 3, &enc::tlv(0x30, &[ca, &i, junk].concat()));
                    value(r, 3, &[&enc::tlv(0x30, &[ca, &i].concat())[..], junk].concat());
                    value(r, 3, &enc::tlv(0x30, &[ca, junk, &i].concat()));
                }
            }
        }
        if r.stop() {
            return;
        }
    }
    own_damage(r, &[1, 3]);
}

fn purposes(r: &mut Runner) {
    large_certs(r, 360);
    huge_certs(r, false, true);
    ext_wrapped(r, &[4, 0, 5]);
    r.phase = "lists of purposes";
    let n = gen::EKU_OIDS.len();
    let list = |ix: &[usize]| {
        let body: Vec<u8> = ix.iter().flat_map(|i| enc::oid(gen::EKU_OIDS[*i]).bytes()).collect();
        enc::tlv(0x30, &body)
    };
    // all lists of up to four purposes
    for len in 0..=4u32 {
        for code in 0..(n as u32).pow(len) {
            if r.mine() {
                let mut x = code;
                let ix: Vec<usize> = (0..len)
                    .map(|_| {
                        let k = x as usize % n;
                        x /= n as u32;
                        k
                    })
                    .collect();
                value(r, 4, &list(&ix));
            }
        }
    }
    r.phase = "other purposes among supported ones";
    for base in [&[1u64, 3, 6, 1, 5, 5, 7, 3][..], &[1, 3, 6, 1, 5, 5, 7], &[2, 5, 29, 37], &[1, 3, 6, 1, 5, 5, 7, 3, 1], &[1, 3, 6, 1, 5, 5, 7, 4], &[1, 3, 6, 1, 4, 1, 311, 10, 3]] {
        for t in 0..300u64 {
            if !r.mine() {
                continue;
            }
            let o = enc::oid(&[base, &[t]].concat()).bytes();
            let s = enc::oid(gen::EKU_OIDS[0]).bytes();
            value(r, 4, &enc::tlv(0x30, &o));
            value(r, 4, &enc::tlv(0x30, &[&s[..], &o].concat()));
            value(r, 4, &enc::tlv(0x30, &[&o[..], &s].concat()));
            value(r, 4, &enc::tlv(0x30, &[&s[..], &o, &s].concat()));
        }
        if r.stop() {
            return;
        }
    }
    for o in r.g.known.clone() {
        if !r.mine() {
            continue;
        }
        let o = enc::oid(&o).bytes();
        value(r, 4, &enc::tlv(0x30, &o));
    }
    r.phase = "key identifiers and roles";
    for size in (0..300usize).chain([1000, 65535]) {
        if r.mine() {
            let b = r.g.rng.bytes(size);
            value(r, 0, &enc::tlv(4, &b));
            let t = r.g.utf8(size);
            value(r, 5, &enc::tlv(0x0C, &t));
            value(r, 5, &enc::tlv(0x0C, &b));
            value(r, 5, &enc::tlv(0x13, &vec![b'A'; size]));
            value(r, 0, &enc::tlv(3, &b));
        }
    }
    for id in 0..=255u8 {
        if r.mine() {
            for b in [&b"role"[..], b"", &[0x2A, 3]] {
                for k in [0, 4, 5] {
                    value(r, k, &enc::tlv(id, b));
                    value(r, k, &enc::tlv(0x30, &enc::tlv(id, b)));
                }
            }
        }
    }
    own_damage(r, &[4, 0, 5]);
}

fn alt_names(r: &mut Runner) {
    large_certs(r, 360);
    huge_certs(r, false, true);
    ext_wrapped(r, &[2]);
    r.phase = "every kind of name";
    let bodies: Vec<Vec<u8>> = vec![
        vec![],
        b"a".to_vec(),
        b"host.example.org".to_vec(),
        b"*.example.org".to_vec(),
        b"user@example.org".to_vec(),
        b"http://x/".to_vec(),
        vec![127, 0, 0, 1],
        vec![0; 16],
        vec![1, 2, 3],
        vec![1, 2, 3, 4, 5],
        vec![0xC3, 0xA9],
        vec![0xFF],
        vec![0xC0, 0x80],
        vec![0x2A, 3],
        vec![0x2A],
        vec![0x80, 1],
        vec![0x2A, 0x83],
        vec![0],
        b"a\0b".to_vec(),
        b" lead".to_vec(),
        b"trail ".to_vec(),
        b"UPPER.Example".to_vec(),
        b"a\nb".to_vec(),
        vec![0x30, 0],
        vec![0x16, 1, b'x'],
    ];
    for id in 0..=255u8 {
        if !r.mine() {
            continue;
        }
        for b in &bodies {
            let e = enc::tlv(id, b);
            value(r, 2, &enc::tlv(0x30, &e));
            let good = [0x82u8, 1, b'h'];
            value(r, 2, &enc::tlv(0x30, &[&good[..], &e].concat()));
            value(r, 2, &enc::tlv(0x30, &[&e[..], &good].concat()));
            value(r, 2, &enc::tlv(0x30, &[&good[..], &e, &good].concat()));
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "names that look like elements";
    for w in [&r.g.words[..], &gen::WORDS.map(|w| w.as_bytes().to_vec())].concat() {
        if !r.mine() {
            continue;
        }
        for text in [w.clone(), [&w[..], b"x"].concat()] {
            for id in [0x81u8, 0x82, 0x86] {
                for inner in [id, 0x16, 0x0C, 0x13, 0x1E, 0x04, 0x30] {
                    value(r, 2, &enc::tlv(0x30, &enc::tlv(id, &enc::tlv(inner, &text))));
                }
                value(r, 2, &enc::tlv(0x30, &enc::tlv(id, &text)));
            }
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "lists of names";
    for n in (1..40usize).chain([100, 255, 256, 1000]) {
        for _ in 0..6 {
            if r.mine() {
                let v = ExtVal::San((0..n).map(|_| r.g.san_name()).collect());
                let b = enc::encode_all(&v.content());
                value(r, 2, &b);
                // repeated names are kept
                let x = r.g.san_name();
                let v = ExtVal::San(vec![x; n.min(50)]);
                value(r, 2, &enc::encode_all(&v.content()));
            }
        }
    }
    for n in 0..300usize {
        if r.mine() {
            for id in [0x81u8, 0x82, 0x86] {
                let t = r.g.ascii(n);
                value(r, 2, &enc::tlv(0x30, &enc::tlv(id, &t)));
            }
            value(r, 2, &enc::tlv(0x30, &enc::tlv(0x88, &vec![1; n])));
        }
    }
    r.phase = "addresses";
    for n in 0..40usize {
        for _ in 0..60 {
            if r.mine() {
                let a = r.g.address(n);
                value(r, 2, &enc::tlv(0x30, &enc::tlv(0x87, &a)));
            }
        }
    }
    own_damage(r, &[2]);
}

fn names(r: &mut Runner) {
    large_certs(r, 360);
    huge_certs(r, false, true);
    for (e, b) in seeds() {
        if e == NAME {
            wrapped_inside(r, NAME, &b);
        }
    }
    r.phase = "attribute types";
    let attr = |last: u64, v: &[u8]| enc::tlv(0x30, &[&enc::oid(&[2, 5, 4, last]).bytes()[..], v].concat());
    for t in 0..300u64 {
        if r.mine() {
            for id in [0x0Cu8, 0x13, 0x16, 4, 2, 0x17, 3, 5, 0x80, 0x30, 0xA0, 6, 0x18, 1, 0x14, 0x1E, 0x1C] {
                let v = match id {
                    0x17 => enc::tlv(id, b"200101000000Z"),
                    0x18 => enc::tlv(id, b"20200101000000Z"),
                    5 | 0x30 | 0xA0 => vec![id, 0],
                    1 => vec![1, 1, 0xFF],
                    3 => vec![3, 2, 0, 0x41],
                    _ => enc::tlv(id, b"AB"),
                };
                let a = enc::tlv(0x31, &attr(t, &v));
                r.run(NAME, &a);
                let cn = enc::tlv(0x31, &attr(3, &[0x0C, 1, b'n']));
                r.run(NAME, &[&a[..], &cn].concat());
                r.run(NAME, &[&cn[..], &a].concat());
            }
        }
    }
    let near = [&[2u64, 5, 4, 3, 1][..], &[2, 5, 4], &[2, 5, 5, 3], &[1, 5, 4, 3], &[2, 5, 4, 131]].map(|a| a.to_vec());
    for a in r.g.known.clone().iter().chain(&near) {
        if !r.mine() {
            continue;
        }
        let v = enc::tlv(0x31, &enc::tlv(0x30, &[&enc::oid(a).bytes()[..], &[0x13, 2, b'x', b'y']].concat()));
        r.run(NAME, &v);
        r.run(CERT, &with_name(&v));
    }
    r.phase = "all orders and groupings";
    let six = [6u64, 8, 7, 10, 11, 3];
    let mut perm: Vec<usize> = (0..6).collect();
    let mut perms: Vec<Vec<usize>> = Vec::new();
    fn heap(k: usize, a: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k <= 1 {
            out.push(a.clone());
            return;
        }
        for i in 0..k {
            heap(k - 1, a, out);
            if k % 2 == 0 {
                a.swap(i, k - 1)
            } else {
                a.swap(0, k - 1)
            }
        }
    }
    heap(6, &mut perm, &mut perms);
    for p in perms {
        if !r.mine() {
            continue;
        }
        // which neighbours share a set
        for glue in 0..32u32 {
            if !r.o.thorough && glue.count_ones() > 2 && glue != 31 {
                continue;
            }
            let mut rdns: Vec<Vec<Vec<u8>>> = Vec::new();
            for (i, k) in p.iter().enumerate() {
                let id = *r.g.rng.pick(&[0x0Cu8, 0x13, 0x16]);
                let a = attr(six[*k], &enc::tlv(id, format!("v{k}").as_bytes()));
                if i > 0 && glue & (1 << (i - 1)) != 0 {
                    rdns.last_mut().unwrap().push(a);
                } else {
                    rdns.push(vec![a]);
                }
            }
            let mut b = Vec::new();
            for mut s in rdns {
                s.sort();
                b.extend(enc::tlv(0x31, &s.concat()));
            }
            r.run(NAME, &b);
            if glue == 0 {
                r.run(CERT, &with_name(&b));
            }
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "repeated attributes";
    for a in six {
        for b in six {
            for same in [true, false] {
                let (x, y) = (attr(a, &[0x0C, 1, b'1']), attr(b, if same { &[0x0C, 1, b'1'] } else { &[0x13, 1, b'2'] }));
                let other = attr(5, &[0x0C, 1, b'9']);
                let one = |l: &[&[u8]]| {
                    let mut v: Vec<&[u8]> = l.to_vec();
                    v.sort();
                    enc::tlv(0x31, &v.concat())
                };
                r.run(NAME, &[one(&[&x]), one(&[&y])].concat());
                r.run(NAME, &one(&[&x, &y]));
                r.run(NAME, &[one(&[&x]), one(&[&other]), one(&[&y])].concat());
                r.run(NAME, &[one(&[&x, &other]), one(&[&y])].concat());
                r.run(NAME, &[one(&[&x]), one(&[&other, &y])].concat());
                // an empty value first or second
                let e = attr(a, &[0x0C, 0]);
                r.run(NAME, &[one(&[&e]), one(&[&y])].concat());
                r.run(NAME, &[one(&[&y]), one(&[&e])].concat());
            }
        }
    }
    r.phase = "cut and grown names";
    for _ in 0..if r.o.thorough { 600 } else { 40 } {
        let n = r.g.name();
        let kids = gen::name_kids(&n);
        let b = enc::encode_all(&kids);
        if b.len() > 250 {
            continue;
        }
        r.seed(NAME, b.clone());
        for k in 0..b.len() {
            r.run(NAME, &b[..k]);
        }
        r.octets(NAME, &b);
        r.edits(NAME, &b, 1);
        // cut the contents of each set and attribute, lengths kept in step
        for (i, t) in kids.iter().enumerate() {
            let T::C(_, _, inner) = t else { continue };
            let body = enc::encode_all(inner);
            for k in 0..body.len() {
                let mut v = enc::encode_all(&kids[..i]);
                v.extend(enc::tlv(0x31, &body[..k]));
                v.extend(enc::encode_all(&kids[i + 1..]));
                r.run(NAME, &v);
            }
            for junk in [&[0u8][..], &[5, 0], &[0x30, 0], &[0x0C], &[0x30]] {
                let mut v = enc::encode_all(&kids[..i]);
                v.extend(enc::tlv(0x31, &[&body[..], junk].concat()));
                v.extend(enc::encode_all(&kids[i + 1..]));
                r.run(NAME, &v);
                if let Some(T::C(_, _, a)) = inner.first() {
                    let mut w = enc::encode_all(&kids[..i]);
                    let first = enc::tlv(0x30, &[&enc::encode_all(a)[..], junk].concat());
                    w.extend(enc::tlv(0x31, &[&first[..], &enc::encode_all(&inner[1..])].concat()));
                    w.extend(enc::encode_all(&kids[i + 1..]));
                    r.run(NAME, &w);
                }
            }
        }
        if r.stop() {
            return;
        }
    }
}

// ------------------------------------------------------------------------------- C21, C22

fn validity(r: &mut Runner) {
    r.phase = "order of instants";
    let mut ts: Vec<u64> = vec![0, 1, 2, 59, 60, 3599, 3600, 86399, 86400, 86401, gen::T_2050 - 1, gen::T_2050, gen::T_MAX, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1];
    for e in 0..64 {
        ts.push(1 << e);
        ts.push((1u64 << e) - 1);
    }
    for _ in 0..60 {
        ts.push(r.g.time());
    }
    for a in ts.clone() {
        for b in &ts {
            if r.mine() {
                let mut v = a.to_be_bytes().to_vec();
                v.extend(b.to_be_bytes());
                r.run(CLOCK, &v);
            }
        }
    }
    r.phase = "pairs of bounds in both types";
    for _ in 0..if r.o.thorough { 40_000 } else { 3_000 } {
        let (a, b) = (r.g.time(), r.g.time());
        let near = if r.g.rng.chance(1, 3) { a.saturating_add(r.g.rng.below(3) as u64).saturating_sub(1).min(gen::T_MAX) } else { b };
        let f = |t: u64, g: bool| -> (u8, String) {
            if g || t >= gen::T_2050 {
                (0x18, cal::gen_string(t))
            } else {
                (0x17, cal::utc_string(t))
            }
        };
        let (i, s) = f(a, r.g.rng.chance(1, 2));
        let (j, t) = f(near, r.g.rng.chance(1, 2));
        r.seed(CERT, cert_times(i, s.as_bytes(), j, t.as_bytes()));
        if r.stop() {
            return;
        }
    }
}

fn printing(r: &mut Runner) {
    combos(r);
    large_certs(r, 360);
    huge_certs(r, false, true);
    r.phase = "hex dumps of every size";
    for n in 0..100usize {
        if r.mine() {
            let mut s = r.g.cert();
            s.version = 2;
            s.key = (0, r.g.rng.bytes(n));
            s.signature = (0, r.g.rng.bytes((n * 7) % 100));
            s.issuer_uid = Some((0, r.g.rng.bytes((n * 3) % 50)));
            s.subject_uid = Some((0, r.g.rng.bytes((n * 5) % 50)));
            s.serial = vec![1 + (n % 100) as u8; 1 + n % 30];
            let b = r.g.rng.bytes(n);
            s.exts = Some(vec![
                gen::ExtSpec { critical: n % 2 == 0, val: ExtVal::Ski(b.clone()) },
                gen::ExtSpec { critical: n % 3 == 0, val: ExtVal::Unknown(vec![1, 2, 3, n as u64], b) },
            ]);
            r.run(CERT, &s.tree().bytes());
        }
    }
    r.phase = "every flag and purpose";
    for v in 0..512u32 {
        if r.mine() {
            let b = [(v >> 1) as u8, ((v & 1) as u8) << 7];
            value(r, 1, &enc::tlv(3, &[&[7][..], &b].concat()));
        }
    }
    for k in 0..8 {
        for _ in 0..if r.o.thorough { 2000 } else { 200 } {
            let (e, b) = r.g.source(Src::Ext(k));
            r.seed(e, b);
        }
        if r.stop() {
            return;
        }
    }
    r.phase = "undecodable names and extensions";
    for _ in 0..if r.o.thorough { 4000 } else { 300 } {
        let n = r.g.size().min(60);
        let raw = r.g.rng.bytes(n);
        r.run(CERT, &with_name(&raw));
        let mut ts = gen::name_kids(&r.g.name());
        let total = enc::count_all(&ts);
        if total > 0 {
            let (k, op) = (r.g.rng.below(total), r.g.rng.below(mutate::OPS));
            mutate::edit(&mut ts, k, op, &mut r.g);
        }
        r.run(CERT, &with_name(&enc::encode_all(&ts)));
        let l = r.g.ext_list();
        let mut t = vec![gen::ext_list_t(&l)];
        let total = enc::count_all(&t);
        let (k, op) = (r.g.rng.below(total), r.g.rng.below(mutate::OPS));
        mutate::edit(&mut t, k, op, &mut r.g);
        r.run(CERT, &Gen::cert_around_ext(&enc::encode_all(&t)));
        if r.stop() {
            return;
        }
    }
}

// ------------------------------------------------------------------------------- C24, C25

pub fn pack_history(items: &[Vec<u8>]) -> Vec<u8> {
    let mut v = Vec::new();
    for i in items {
        v.extend((i.len() as u32).to_be_bytes());
        v.extend_from_slice(i);
    }
    v
}

fn history(r: &mut Runner, rounds: usize, n: usize) {
    r.phase = "histories";
    for _ in 0..rounds {
        let mut items = Vec::new();
        for _ in 0..n {
            let (_, b) = r.g.source(Src::Any(PURE));
            items.push(b.clone());
            // near relatives: what a cache could confuse
            let m = mutate::mutate(&b, &[], &mut r.g);
            items.push(m);
            if r.g.rng.chance(1, 2) && !b.is_empty() {
                let mut m = b.clone();
                let i = r.g.rng.below(m.len());
                m[i] ^= 1 << r.g.rng.below(8);
                items.push(m);
            }
            if r.g.rng.chance(1, 3) {
                items.push(b[..b.len() / 2].to_vec());
            }
        }
        r.run(HISTORY, &pack_history(&items));
        if r.stop() {
            return;
        }
    }
}

fn pure(r: &mut Runner) {
    // the same inputs in a different order in every worker process: check.py compares
    r.phase = "pool common to all processes";
    let mut g = Gen::new(Rng::new(r.o.seed, 424242));
    let mut pool: Vec<Vec<u8>> = SEEDS.iter().map(|s| s.to_vec()).collect();
    for _ in 0..if r.o.thorough { 3000 } else { 400 } {
        let (_, b) = g.source(Src::Any(PURE));
        if g.rng.chance(1, 2) {
            pool.push(mutate::mutate(&b, &[], &mut g));
        }
        pool.push(b);
    }
    let mut order: Vec<usize> = (0..pool.len()).collect();
    r.g.rng.shuffle(&mut order);
    let mut digests = vec![0u64; pool.len()];
    for i in order {
        if let Ok(s) = std::panic::catch_unwind(|| more_eval::snapshot(&pool[i])) {
            digests[i] = crate::rep::hash(s.as_bytes());
        }
    }
    crate::runner::take_panic();
    r.phase = "the same octets very often";
    let mut often: Vec<Vec<u8>> = SEEDS.iter().map(|s| s.to_vec()).collect();
    let kinds: Vec<T> = der_ref::KINDS.iter().flat_map(|k| [g.primitive(*k), g.primitive(*k)]).collect();
    often.push(enc::encode_all(&kinds));
    often.push(enc::encode_all(&[enc::oid(&[1, 3, 6, 1, 4, 1, 50316, 802, 1, 7, 8, 9]), enc::seq(vec![enc::boolean(true), enc::int(-300)])]));
    for _ in 0..5 {
        let s = g.cert();
        often.push(s.tree().bytes());
    }
    let l = (0..7).map(|k| gen::ext_t(&gen::ExtSpec { critical: k % 2 == 0, val: g.ext_val(k) })).collect::<Vec<_>>();
    often.push(Gen::cert_around_ext(&enc::seq(l).bytes()));
    often.retain(|b| b.len() < 3000);
    // damaged ones
    for k in 0..16 {
        let b = if k % 2 == 0 { SEEDS[k / 2 % SEEDS.len()].to_vec() } else { g.cert().tree().bytes() };
        let b = mutate::mutate(&b, &[], &mut g);
        if b.len() < 3000 {
            often.push(b);
        }
    }
    // every kind of fault, alone and inside of a certificate
    for fault in faults() {
        often.push(fault.clone());
        often.push(Gen::cert_around_ext(&fault));
        often.push(enc::tlv(0x31, &enc::tlv(0x30, &[&[6, 3, 85, 4, 3][..], &fault].concat())));
    }
    // extensions and names by themselves
    for k in 0..8 {
        for critical in [false, true] {
            let mut v = g.ext_val(k);
            if let ExtVal::Bc(ca, _) = &mut v {
                *ca = critical.then_some(true);
            }
            let e = gen::ext_t(&gen::ExtSpec { critical, val: v }).bytes();
            if let Some(e) = enc::parse_tree(&e, 2).first() {
                if let T::C(_, _, k) = e {
                    often.push(enc::encode_all(k));
                }
            }
        }
        often.push(enc::encode_all(&gen::name_kids(&g.name())));
    }
    often.retain(|b| b.len() < 3000);
    for b in often {
        if r.mine() && !r.stop() {
            r.run(crate::runner::OFTEN, &b);
        }
    }
    r.phase = "near relatives in every order";
    let mut families = Vec::new();
    for _ in 0..if r.o.thorough { 4000 } else { 400 } {
        families.push(g.family(40));
    }
    let mut order: Vec<usize> = (0..families.len()).collect();
    r.g.rng.shuffle(&mut order);
    for i in order {
        let f = &families[i];
        let mut inner: Vec<usize> = (0..f.len()).collect();
        r.g.rng.shuffle(&mut inner);
        let mut h = vec![0u64; f.len()];
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for k in inner {
                h[k] = crate::rep::hash(more_eval::light(&f[k]).as_bytes());
            }
        }));
        if ok.is_ok() {
            let b: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
            digests.push(crate::rep::hash(&b));
            pool.push(pack_history(f));
        }
    }
    crate::runner::take_panic();
    r.digests = digests.into_iter().zip(pool).collect();
    for _ in 0..if r.o.thorough { 20_000 } else { 600 } {
        let f = r.g.family(60);
        r.run(MEMO, &pack_history(&f));
        if r.stop() {
            return;
        }
    }
    history(r, if r.o.thorough { 1500 } else { 60 }, 8);
}

fn typed(r: &mut Runner) {
    r.phase = "every kind as every type";
    for k in KINDS {
        for _ in 0..if r.o.thorough { 3000 } else { 300 } {
            let t = r.g.primitive(k).bytes();
            r.seed(TYPED, t.clone());
            r.run(DER, &t);
            if r.stop() {
                return;
            }
        }
    }
    for n in 0..31u8 {
        for f in [0x80u8, 0xA0] {
            r.run(TYPED, &[f | n, 0]);
            r.run(TYPED, &[f | n, 3, 2, 1, n]);
        }
    }
    for v in -300..300i128 {
        r.run(TYPED, &enc::int(v).bytes());
    }
    for o in r.g.known.clone() {
        r.run(TYPED, &enc::oid(&o).bytes());
    }
    for text in ["", "Integer: 5", "a: b", "[3]", "é", "line\nbreak", "Null", "\u{1F600}"] {
        for id in [0x0C, 0x13, 0x16] {
            r.run(TYPED, &enc::tlv(id, text.as_bytes()));
        }
    }
    r.run(TYPED, &[1, 1, 0]);
    r.run(TYPED, &[1, 1, 0xFF]);
}

// ------------------------------------------------------------------------------------ C23

/// writes input files and what the command-line tool must print for them
pub fn cli_cases(args: &[String]) -> i32 {
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let dir = get("--dir").expect("--dir");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: usize = get("--ops").and_then(|s| s.parse().ok()).unwrap_or(300);
    let mut g = Gen::new(Rng::new(seed, 23));
    let mut inputs: Vec<Vec<u8>> = SEEDS.iter().map(|s| s.to_vec()).collect();
    inputs.push(vec![]);
    for s in SEEDS {
        inputs.push(s[..s.len() - 1].to_vec());
        inputs.push([s, &[0]].concat());
        inputs.push([s, s].concat());
    }
    for d in [1usize, 2, 3, 10, 100, 1000] {
        inputs.push(nest(&[0x30, 0xA0, 0x31], d, &[2, 1, 5], &[]));
        if d <= 100 {
            inputs.push(nest(&[0x30, 0xA0, 0x31], d, &[2, 1, 5], &[3, 3, 0, 1, 2]));
        }
        inputs.push(nest(&[0x30], d, &[2, 0], &[]));
    }
    inputs.push(nest(&[0x30], 3000, &[], &[]));
    inputs.push(nest(&[0x30, 0xA1], 3000, &[9, 9], &[]));
    for k in [0usize, 1, 15, 16, 17, 31, 32, 33, 48, 100, 300] {
        inputs.push(enc::tlv(3, &[&[0][..], &g.rng.bytes(k)].concat()));
        inputs.push(enc::tlv(0x30, &enc::tlv(3, &[&[0][..], &g.rng.bytes(k)].concat())));
    }
    for u in 0..8 {
        inputs.push(vec![3, 3, u, 0x12, 0x80]);
    }
    // files around the sizes of read buffers
    for size in [4096usize, 8192, 16_384, 32_768, 65_536, 131_072, 1 << 20, 1 << 22, 1 << 24] {
        for d in [-1isize, 0, 1, 3] {
            let total = (size as isize + d) as usize;
            let head = enc::tlv(4, &vec![0; total]).len() - total;
            let k = total - head;
            let e = enc::tlv(4, &vec![b'o'; k]);
            if size > 1 << 20 && d != 1 {
                continue;
            }
            inputs.push(e.clone());
            // another element behind, in the file's last octets
            inputs.push([&e[..], &[1, 1, 0xFF]].concat());
            inputs.push([&e[..], &[1, 1, 0xFE]].concat());
            if size <= 131_072 && d >= 0 {
                inputs.push(enc::tlv(0x30, &[&enc::tlv(0x0C, &vec![b's'; k])[..], &enc::tlv(3, &vec![0; k])].concat()));
                inputs.push([5u8, 0].repeat(total / 2));
                let mut c = g.cert();
                c.version = 2;
                c.exts = Some(vec![gen::ExtSpec { critical: true, val: ExtVal::Unknown(vec![1, 2, 3], vec![0x11; k]) }]);
                inputs.push(c.tree().bytes());
            }
        }
    }
    for b in SEEDS.iter().map(|s| s.to_vec()).take(2).chain([vec![5, 0], vec![0x30, 3, 2, 1, 7], g.cert().tree().bytes()]) {
        inputs.extend(wrappings(&b));
    }
    // bit strings at every depth for a while
    for d in 0..80usize {
        inputs.push(nest(&[0x30, 0x31, 0xA5], d, &[3, 18, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17], &[]));
    }
    while inputs.len() < n {
        let s = *g.rng.pick(&[Src::Forest, Src::Forest, Src::Cert, Src::Cert, Src::ExtList, Src::Any(DER), Src::Raw(DER), Src::Prim(Kind::Bits), Src::Prim(Kind::Utf8)]);
        let (_, b) = g.source(s);
        inputs.push(if g.rng.chance(1, 3) { mutate::mutate(&b, &[], &mut g) } else { b });
    }
    let mut out = String::new();
    for (i, b) in inputs.iter().enumerate() {
        std::fs::write(format!("{dir}/{i}.bin"), b).expect("write input");
        let (lines, ok, sure) = more_eval::cli_der(b);
        let (text, cok, csure) = more_eval::cli_cert(b);
        out.push_str(&format!(
            "{{\"file\":\"{i}.bin\",\"der\":\"{}\",\"der_ok\":{ok},\"der_error\":\"{}\",\"der_sure\":{sure},\"cert\":\"{}\",\"cert_ok\":{cok},\"cert_error\":\"{}\",\"cert_sure\":{csure}}}\n",
            hex(&lines.0),
            hex(lines.1.as_bytes()),
            hex(&text.0),
            hex(text.1.as_bytes())
        ));
    }
    std::fs::write(format!("{dir}/cases.jsonl"), out).expect("write cases");
    0
}
