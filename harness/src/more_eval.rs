//! Monitors for typed access (C25), purity (C24) and resource use (C02).

use crate::alloc;
use crate::cov;
use crate::der_eval::{self, check_value, kind_of, type_id};
use crate::der_ref::{self, Item};
use crate::enc;
use crate::rep::{c, hex_short, Rep};
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::{LinePrinter, Printable};
use rx509::x509::{Certificate, Name, Validity};
use std::fmt::Write;

// ------------------------------------------------------------------------ typed access

const ED25519: &[u8] = &[6, 3, 0x2B, 0x65, 0x70];

/// a certificate whose outer algorithm parameters are `element`, and where they start
pub fn carrier(element: &[u8]) -> (Vec<u8>, usize) {
    let plain = crate::gen::Gen::cert_around_ext(&[0x30, 0]);
    let seq = &enc::parse_tree(&plain, 1)[0];
    let tbs = match seq {
        enc::T::C(_, _, k) => k[0].bytes(),
        _ => unreachable!(),
    };
    let alg = enc::tlv(0x30, &[ED25519, element].concat());
    let body = [&tbs[..], &alg[..], &[3, 1, 0]].concat();
    let cert = enc::tlv(0x30, &body);
    let off = cert.len() - 3 - element.len();
    (cert, off)
}

/// input: one element; every extractor is applied to an owned decoded value of it
pub fn typed(input: &[u8], rep: &mut Rep) -> bool {
    if input.is_empty() {
        return false;
    }
    let e = match der_ref::element(input, 0, input.len()) {
        Ok(e) if e.end() == input.len() => e,
        _ => return false,
    };
    let (cert, off) = carrier(input);
    let at = der_ref::element(&cert, off, off + input.len()).unwrap();
    rep.nontrivial = true;
    let m = c(25);
    let fetch = || -> Option<ASNType<'_>> { Certificate::parse(&cert).ok().and_then(|c| c.signature_algorithm.parameters) };
    let first = match fetch() {
        Some(t) => t,
        None => {
            if !e.lenient {
                rep.miss(m, || "element not available as an algorithm parameter".into());
            }
            return false;
        }
    };
    if kind_of(&first) != e.kind {
        rep.miss(m, || format!("{:?} decoded as {:?}", e.kind, kind_of(&first)));
        return true;
    }
    der_eval::check_typed(rep, &cert, &first, &at);
    rep.mix(e.kind as u64 + 1);
    macro_rules! extract {
        ($($w:ident => $mk:expr),* $(,)?) => {$(
            {
                let t = fetch().unwrap();
                let own = t.get_id();
                let id = <$w as ASNWrapperType>::get_id();
                let v = <$w as ASNWrapperType>::get_value(t);
                rep.count("extractions");
                if own != type_id(e.kind) {
                    rep.miss(m, || format!("get_id of a {:?} is {:?}", e.kind, own));
                }
                match v {
                    None => if id == type_id(e.kind) {
                        rep.miss(m, || format!("extraction of a {:?} as {id:?} yields nothing", e.kind));
                    },
                    Some(v) => if id != type_id(e.kind) {
                        rep.miss(m, || format!("a {:?} is extracted as {id:?}", e.kind));
                    } else {
                        rep.count("extractions yielding a value");
                        let back: ASNType = $mk(v);
                        check_value(rep, &cert, &back, &at, m);
                    },
                }
            }
        )*};
    }
    extract! {
        Boolean => Boolean::asn,
        Integer => Integer::asn,
        BitString => BitString::asn,
        OctetString => OctetString::asn,
        ObjectIdentifier => ObjectIdentifier::asn,
        UTF8String => UTF8String::asn,
        PrintableString => PrintableString::asn,
        IA5String => IA5String::asn,
        Sequence => Sequence::asn,
        Set => Set::asn,
        UtcTime => |t: UtcTime| UtcTime::asn(t.value),
        ExplicitTag => ExplicitTag::asn,
    }
    for (got, want) in [
        (Boolean::get_id(), ASNTypeId::Boolean),
        (Integer::get_id(), ASNTypeId::Integer),
        (BitString::get_id(), ASNTypeId::BitString),
        (OctetString::get_id(), ASNTypeId::OctetString),
        (ObjectIdentifier::get_id(), ASNTypeId::ObjectIdentifier),
        (UTF8String::get_id(), ASNTypeId::UTF8String),
        (PrintableString::get_id(), ASNTypeId::PrintableString),
        (IA5String::get_id(), ASNTypeId::IA5String),
        (Sequence::get_id(), ASNTypeId::Sequence),
        (Set::get_id(), ASNTypeId::Set),
        (UtcTime::get_id(), ASNTypeId::UTCTime),
        (ExplicitTag::get_id(), ASNTypeId::ExplicitTag),
    ] {
        if got != want {
            rep.miss(m, || format!("a wrapper's type identifier is {got:?} instead of {want:?}"));
        }
    }
    true
}

// ------------------------------------------------------------------------------ purity

#[derive(Default)]
struct Log(Vec<String>);
impl ParseHandler for Log {
    fn begin_constructed(&mut self) {
        self.0.push("{".into())
    }
    fn end_constructed(&mut self) {
        self.0.push("}".into())
    }
    fn on_type(&mut self, a: &ASNType) {
        // containers are described by their children: no quadratic copies of the contents
        self.0.push(match a {
            ASNType::Sequence(w) => format!("Sequence({})", w.value.len()),
            ASNType::Set(w) => format!("Set({})", w.value.len()),
            ASNType::ExplicitTag(w) if w.value.contents.len() > 64 => format!("{a}({})", w.value.contents.len()),
            _ => format!("{a:?}|{a}"),
        })
    }
    fn on_error(&mut self, e: &ASNError) {
        self.0.push(format!("!{e:?}|{e}"))
    }
}
pub fn walk_log(input: &[u8]) -> Vec<String> {
    let mut l = Log::default();
    let r = parse_all(input, &mut l);
    l.0.push(format!("={r:?}"));
    l.0
}

pub struct Fmt(pub String);
impl LinePrinter for Fmt {
    fn begin_type(&mut self) {
        self.0.push('\u{1}')
    }
    fn begin_line(&mut self) {
        self.0.push('\u{2}')
    }
    fn print_fmt(&mut self, f: &core::fmt::Arguments) {
        let _ = self.0.write_fmt(*f);
    }
    fn print_str(&mut self, s: &str) {
        self.0.push_str(s)
    }
    fn println_fmt(&mut self, f: &core::fmt::Arguments) {
        let _ = self.0.write_fmt(*f);
        self.0.push('\n')
    }
    fn println_str(&mut self, s: &str) {
        self.0.push_str(s);
        self.0.push('\n')
    }
    fn end_type(&mut self) {
        self.0.push('\u{3}')
    }
}

pub fn name_text(input: &[u8]) -> String {
    let n = Name { inner: input };
    match n.parse() {
        Ok(x) => format!(
            "{:?}{:?}{:?}{:?}{:?}{:?}",
            x.country_name, x.state_or_province_unit_name, x.locality_name, x.organization, x.organizational_unit_name, x.common_name
        ),
        Err(e) => format!("{e:?}"),
    }
}

/// everything observable about decoding `input`, without addresses
pub fn snapshot(input: &[u8]) -> String {
    let mut s = walk_log(input).join("\n");
    match Certificate::parse(input) {
        Ok(cert) => {
            let _ = write!(s, "\nCERT {cert:?}");
            let t = &cert.tbs_certificate.value;
            if let Some(x) = &t.extensions {
                let _ = write!(s, "\nEXT {:?}", x.parse());
            }
            let _ = write!(s, "\n{}{}", name_text(t.issuer.inner), name_text(t.subject.inner));
            let mut f = Fmt(String::new());
            cert.print(&mut f);
            s.push_str(&f.0);
        }
        Err(e) => {
            let _ = write!(s, "\nCERT {e:?} {e}");
        }
    }
    let _ = write!(s, "\nNAME {}", name_text(input));
    let _ = write!(s, "\nEXTENSION {:?}", Extension::parse(input));
    s
}

fn diff(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| {
        let b = s.as_bytes();
        let lo = n.saturating_sub(30);
        String::from_utf8_lossy(&b[lo.min(b.len())..(n + 50).min(b.len())]).into_owned()
    };
    format!("{:?} versus {:?}", cut(a), cut(b))
}

/// repeated, relocated and embedded decoding of one input
pub fn pure(input: &[u8], rep: &mut Rep) -> bool {
    rep.nontrivial = !input.is_empty();
    let base = snapshot(input);
    rep.mix(base.len() as u64);
    rep.add("snapshot octets", base.len() as u64);
    let m = c(24);
    let again = snapshot(input);
    if again != base {
        rep.miss(m, || format!("decoding twice differs: {}", diff(&base, &again)));
    }
    // at other times
    for secs in [0i64, 4_102_444_800, 253_402_300_800] {
        if let Some(then) = cov::wall::at(secs, 5, || snapshot(input)) {
            rep.count("decodings at other times");
            if then != base {
                rep.miss(m, || format!("decoding with the clock at {secs} differs: {}", diff(&base, &then)));
            }
        }
    }
    // relocation: other alignments, other neighbours
    for (shift, fill) in [(1usize, 0xFFu8), (3, 0x00), (8, 0x30), (13, 0x80)] {
        let mut buf = vec![fill; input.len() + 2 * shift];
        buf[shift..shift + input.len()].copy_from_slice(input);
        if fill == 0x30 {
            // followed by what looks like a continuation
            let n = shift.min(input.len());
            let tail = buf.len() - n;
            buf[tail..].copy_from_slice(&input[..n]);
        }
        let moved = snapshot(&buf[shift..shift + input.len()]);
        rep.count("relocated decodings");
        if moved != base {
            rep.miss(m, || format!("decoding inside a larger buffer differs: {}", diff(&base, &moved)));
        }
    }
    // an element alone against the element in place
    let items = der_ref::walk(input);
    let log = walk_log(input);
    // (only where the notifications follow the reference: other checks judge the rest)
    let clean = items.len() == log.len() - 1
        && !items.iter().any(|i| matches!(i, Item::Fault { .. }))
        && items.iter().zip(&log).all(|(i, l)| match i {
            Item::Begin => l == "{",
            Item::End => l == "}",
            _ => l != "{" && l != "}",
        });
    if clean && items.len() < 400 {
        for (i, it) in items.iter().enumerate() {
            if let Item::Elem(e) = it {
                let mut end = i + 1;
                if matches!(items.get(end), Some(Item::Begin)) {
                    let mut d = 0;
                    loop {
                        match items[end] {
                            Item::Begin => d += 1,
                            Item::End => d -= 1,
                            _ => {}
                        }
                        end += 1;
                        if d == 0 {
                            break;
                        }
                    }
                }
                let alone = input[e.start..e.end()].to_vec();
                let part = walk_log(&alone);
                rep.count("elements decoded alone");
                if part[..part.len() - 1] != log[i..end] {
                    rep.miss(m, || format!("element {} decodes differently alone and in place", hex_short(&alone)));
                }
            }
        }
    }
    // parts of a certificate alone
    if let Ok(cert) = Certificate::parse(input) {
        let t = &cert.tbs_certificate.value;
        for n in [&t.issuer, &t.subject] {
            let alone = n.inner.to_vec();
            if name_text(n.inner) != name_text(&alone) {
                rep.miss(m, || "a name decodes differently alone".into());
            }
        }
    }
    true
}

/// whether and how far everything decodes, at little cost
fn brief(input: &[u8]) -> (u64, u64) {
    let mut n = Counter(0);
    let mut ok = parse_all(input, &mut n).is_ok() as u64;
    if let Ok(cert) = Certificate::parse(input) {
        let t = &cert.tbs_certificate.value;
        ok |= 2;
        ok |= (t.issuer.parse().is_ok() as u64) << 2 | (t.subject.parse().is_ok() as u64) << 3;
        n.0 += t.validity.not_before.value ^ t.validity.not_after.value << 1;
        n.0 += t.serial_number.as_i32().unwrap_or(-7) as u64;
        if let Some(Ok(l)) = t.extensions.as_ref().map(|x| x.parse()) {
            ok |= 16;
            n.0 += (l.len() as u64) << 40;
        }
    }
    if let Ok(e) = Extension::parse(input) {
        ok |= 32 | (e.critical as u64) << 6;
        n.0 ^= match &e.content {
            SpecificExtension::SubjectKeyIdentifier(x) => x.key_identifier.len() as u64,
            SpecificExtension::KeyUsage(k) => [
                k.digital_signature,
                k.content_commitment,
                k.key_encipherment,
                k.data_encipherment,
                k.key_agreement,
                k.key_cert_sign,
                k.crl_sign,
                k.encipher_only,
                k.decipher_only,
            ]
            .iter()
            .fold(1, |a, b| a << 1 | *b as u64),
            SpecificExtension::SubjectAlternativeName(x) => x.names.len() as u64,
            SpecificExtension::BasicConstraints(b) => b.ca as u64 | (b.path_length_constraint.unwrap_or(-5) as u64) << 1,
            SpecificExtension::ExtendedKeyUsage(x) => x.ext_key_usages.iter().fold(3, |a, p| 7 * a + std::mem::discriminant(p).eq(&std::mem::discriminant(&x.ext_key_usages[0])) as u64),
            SpecificExtension::ModbusRole(x) => x.role.len() as u64,
            SpecificExtension::Unknown(x) => x.len() as u64,
        } << 44;
    }
    if let Ok(name) = (Name { inner: input }).parse() {
        ok |= 128;
        for s in [name.common_name, name.country_name, name.locality_name, name.organization] {
            n.0 = n.0.rotate_left(9) ^ s.map_or(11, |s| s.len() as u64);
        }
    }
    (n.0, ok)
}

/// the hundred thousandth decoding is like the first one
pub fn often(input: &[u8], rep: &mut Rep) -> bool {
    rep.nontrivial = !input.is_empty();
    let whole = snapshot(input);
    let first = brief(input);
    rep.mix(first.0 ^ first.1);
    let times = if cfg!(any(miri, feature = "asan", feature = "tsan")) { 300 } else { 60_000 * if input.len() < 128 { 5 } else { 1 } };
    for i in 1..=times {
        cov::begin(input, crate::runner::OFTEN);
        let now = brief(input);
        let other = i % 512 == 0 && snapshot(input) != whole;
        if now != first || other {
            rep.miss(c(24), || format!("decoding number {i} of the same octets differs from the first one"));
            break;
        }
    }
    rep.add("repeated decodings", times);
    true
}

// ----------------------------------------------------------------------------- resources

struct Counter(u64);
impl ParseHandler for Counter {
    fn begin_constructed(&mut self) {
        self.0 += 1
    }
    fn end_constructed(&mut self) {
        self.0 += 1
    }
    fn on_type(&mut self, _: &ASNType) {
        self.0 += 1
    }
    fn on_error(&mut self, _: &ASNError) {
        self.0 += 1
    }
}
struct Elements(u64);
impl ParseHandler for Elements {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, _: &ASNType) {
        self.0 += 1
    }
    fn on_error(&mut self, _: &ASNError) {}
}

/// discards the text without allocating
struct Sink(u64);
struct W<'a>(&'a mut u64);
impl Write for W<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        *self.0 += s.len() as u64;
        Ok(())
    }
}
impl LinePrinter for Sink {
    fn begin_type(&mut self) {
        self.0 += 1
    }
    fn begin_line(&mut self) {
        self.0 += 1
    }
    fn print_fmt(&mut self, f: &core::fmt::Arguments) {
        let _ = W(&mut self.0).write_fmt(*f);
    }
    fn print_str(&mut self, s: &str) {
        self.0 += s.len() as u64
    }
    fn println_fmt(&mut self, f: &core::fmt::Arguments) {
        let _ = W(&mut self.0).write_fmt(*f);
    }
    fn println_str(&mut self, s: &str) {
        self.0 += s.len() as u64
    }
    fn end_type(&mut self) {
        self.0 += 1
    }
}

/// logical budgets, generous multiples of what the decoder uses (see DESIGN.md)
pub const STEPS_PER_OCTET: u64 = 100;
pub const STEPS_FLAT: u64 = 5_000;
pub const BYTES_PER_OCTET: u64 = 128;
pub const BYTES_FLAT: u64 = 8 * 1024;
pub const OUT_PER_OCTET: u64 = 64;
pub const OUT_FLAT: u64 = 2048;
/// copied, set and compared by the C library's functions
pub const MOVED_PER_OCTET: u64 = 256;
pub const MOVED_FLAT: u64 = 16 * 1024;
pub const STACK: u64 = 48 * 1024;

#[derive(Default, Clone, Copy, Debug)]
pub struct Use {
    pub steps: u64,
    pub bytes: u64,
    pub stack: u64,
    pub events: u64,
    pub out: u64,
    pub moved: u64,
    /// bytes still allocated after everything is dropped
    pub left: u64,
}

const KEPT: u64 = 256 * 1024;
pub const ENTRIES: [&str; 6] = ["walk", "certificate", "print", "name", "extension", "extensions"];

/// f with the meters on; far beyond a budget the process leaves a witness and stops
fn metered(n: u64, u: &mut Use, f: impl FnOnce(&mut Use)) {
    use std::sync::atomic::Ordering::Relaxed;
    let base = &n as *const u64 as usize;
    let s0 = cov::steps();
    let limit = cov::STEP_LIMIT.swap(s0 + 4 * (STEPS_PER_OCTET * n + STEPS_FLAT), Relaxed);
    cov::STACK_LO.store(usize::MAX, Relaxed);
    alloc::LIMIT.store((4 * (BYTES_PER_OCTET * n + BYTES_FLAT)) as usize, Relaxed);
    cov::MOVED.store(0, Relaxed);
    cov::MOVED_LIMIT.store(4 * (MOVED_PER_OCTET * n + MOVED_FLAT), Relaxed);
    cov::MOVING.store(true, Relaxed);
    let (_, b, left) = alloc::measure(|| f(u));
    cov::MOVING.store(false, Relaxed);
    u.moved = cov::MOVED.load(Relaxed);
    u.left = left as u64;
    u.steps = cov::steps() - s0;
    u.bytes = b as u64;
    let lo = cov::STACK_LO.load(Relaxed);
    u.stack = if lo == usize::MAX { 0 } else { base.saturating_sub(lo) as u64 };
    cov::STEP_LIMIT.store(limit, Relaxed);
}

/// runs one entry point with the meters on
#[inline(never)]
pub fn meter(input: &[u8], entry: usize) -> Use {
    let n = input.len() as u64;
    let mut u = Use::default();
    match entry {
        0 => metered(n, &mut u, |u| {
            let mut h = Counter(0);
            let _ = parse_all(input, &mut h);
            u.events = h.0;
        }),
        1 => metered(n, &mut u, |_| {
            let _ = Certificate::parse(input);
        }),
        2 => metered(n, &mut u, |u| {
            let mut p = Sink(0);
            if let Ok(cert) = Certificate::parse(input) {
                cert.print(&mut p);
            }
            u.out = p.0;
        }),
        3 => metered(n, &mut u, |_| {
            let _ = Name { inner: input }.parse();
        }),
        4 => metered(n, &mut u, |u| {
            let mut p = Sink(0);
            if let Ok(x) = Extension::parse(input) {
                x.print(&mut p);
            }
            u.out = p.0;
        }),
        _ => {
            let cert = Certificate::parse(input);
            metered(n, &mut u, |_| {
                if let Ok(c) = &cert {
                    if let Some(x) = &c.tbs_certificate.value.extensions {
                        let _ = x.parse();
                    }
                }
            })
        }
    }
    u
}

/// total resource use of every entry point on one input
pub fn work(input: &[u8], rep: &mut Rep) -> bool {
    rep.nontrivial = !input.is_empty();
    let n = input.len() as u64;
    let m = c(2);
    for entry in 0..ENTRIES.len() {
        let u = meter(input, entry);
        rep.count("metered runs");
        rep.mix(64 - (u.steps + 1).leading_zeros() as u64);
        if n >= 64 {
            rep.max("max steps per 100 octets", 100 * u.steps / n);
            rep.max("max bytes allocated per 100 octets", 100 * u.bytes / n);
            rep.max("max bytes moved per 100 octets", 100 * u.moved / n);
            rep.max("max characters printed per 100 octets", 100 * u.out / n);
        } else {
            rep.max("max steps, short inputs", u.steps);
            rep.max("max bytes allocated, short inputs", u.bytes);
            rep.max("max bytes moved, short inputs", u.moved);
            rep.max("max characters printed, short inputs", u.out);
        }
        rep.max("deepest stack", u.stack);
        let name = ENTRIES[entry];
        if u.left > 0 {
            // once may be a table built on first use; never again for the same input, and
            // not more and more with every other input
            rep.add("bytes kept", u.left);
            let again = [meter(input, entry).left, meter(input, entry).left];
            if again[1] > 0 {
                rep.miss(m, || format!("{name}: {again:?} bytes stay allocated every time after everything is dropped"));
            }
            let total = rep.counts["bytes kept"];
            if total > KEPT {
                rep.miss(m, || format!("{total} bytes stay allocated after everything is dropped, and more with every input"));
            }
        }
        for (what, used, per, flat) in [
            ("steps", u.steps, STEPS_PER_OCTET, STEPS_FLAT),
            ("bytes allocated", u.bytes, BYTES_PER_OCTET, BYTES_FLAT),
            ("bytes moved", u.moved, MOVED_PER_OCTET, MOVED_FLAT),
            ("characters printed", u.out, OUT_PER_OCTET, OUT_FLAT),
            ("bytes of stack", u.stack, 0, STACK),
        ] {
            if used > per * n + flat {
                rep.miss(m, || format!("{name}: {used} {what} for {n} octets"));
            }
        }
        if entry == 0 {
            if u.events > 3 * n + 1 {
                rep.miss(m, || format!("{} notifications for {n} octets", u.events));
            }
            let mut e = Elements(0);
            let _ = parse_all(input, &mut e);
            rep.add("elements delivered", e.0);
            if e.0 > n {
                rep.miss(m, || format!("{} elements delivered for {n} octets", e.0));
            }
        }
    }
    true
}

// ---------------------------------------------------------------------- single functions

/// one octet: class, form and number
pub fn ident(input: &[u8], rep: &mut Rep) -> bool {
    let Some(b) = input.first() else { return false };
    rep.nontrivial = true;
    rep.mix(*b as u64);
    let class = || match b >> 6 {
        0 => TagClass::Universal,
        1 => TagClass::Application,
        2 => TagClass::ContextSpecific,
        _ => TagClass::Private,
    };
    let pc = || if b >> 5 & 1 == 1 { PC::Constructed } else { PC::Primitive };
    let i = Identifier::from(*b);
    if i.class != class() || i.pc != pc() || i.tag != b & 0x1F {
        rep.miss(c(7), || format!("identifier octet {b:02x} classified as {i:?}"));
    }
    let n = Identifier::new(class(), pc(), b & 0x1F);
    if n != i {
        rep.miss(c(7), || format!("identifier octet {b:02x}: {n:?} differs from {i:?}"));
    }
    true
}

/// two instants: their order, and the present against the system clock
pub fn clock(input: &[u8], rep: &mut Rep) -> bool {
    if input.len() < 16 {
        return false;
    }
    rep.nontrivial = true;
    let get = |i: usize| u64::from_be_bytes(input[i..i + 8].try_into().unwrap());
    let (a, b) = (get(0), get(8));
    let (x, y) = (UtcTime::from_seconds_since_epoch(a), UtcTime::from_seconds_since_epoch(b));
    if x.value != a || y.value != b {
        rep.miss(c(21), || format!("instant {a} kept as {}", x.value));
    }
    let got = (x < y, x <= y, x == y, x >= y, x > y, x.partial_cmp(&y));
    let want = (a < b, a <= b, a == b, a >= b, a > b, Some(a.cmp(&b)));
    if got != want {
        rep.miss(c(21), || format!("order of {a} and {b} is {got:?}"));
    }
    rep.count("instants compared");
    let v = Validity { not_before: x, not_after: y };
    for t in [a, b, a.wrapping_sub(1), a.wrapping_add(1), b.wrapping_sub(1), b.wrapping_add(1), a / 2 + b / 2, 0, u64::MAX] {
        if v.is_valid(UtcTime::from_seconds_since_epoch(t)) != (a <= t && t <= b) {
            rep.miss(c(21), || format!("instant {t} within {a} to {b}: {}", !(a <= t && t <= b)));
        }
    }
    #[cfg(not(miri))]
    {
        use std::time::{SystemTime, UNIX_EPOCH};
        let now = || SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
        let lo = now();
        let t = UtcTime::now();
        let hi = now();
        rep.count("readings of the clock");
        match t {
            Ok(t) => {
                if lo <= hi && (t.value < lo || t.value > hi) {
                    rep.miss(c(21), || format!("now() is {} between {lo} and {hi}", t.value));
                }
            }
            Err(e) => rep.miss(c(21), || format!("now() failed: {e}")),
        }
    }
    // the system's clock set to these instants, early and late in the second
    for (k, v) in [a, b, a].into_iter().enumerate() {
        let secs = v as i64;
        let nanos = [0, 999_999_999, (v % 1_000_000_000) as i64][(k + b as usize) % 3];
        let Some(t) = crate::cov::wall::at(secs, nanos, UtcTime::now) else { continue };
        rep.count("settings of the clock");
        match t {
            Ok(t) if secs < 0 || t.value != v => {
                rep.miss(c(21), || format!("now() is {} at {secs} seconds and {nanos} nanoseconds of the system's clock", t.value))
            }
            Err(e) if secs >= 0 => rep.miss(c(21), || format!("now() failed at {secs} seconds and {nanos} nanoseconds of the system's clock: {e}")),
            _ => {}
        }
    }
    true
}

/// a text that does something, or fails, while it is written to
struct Inside<'f> {
    out: String,
    then: Option<&'f mut dyn FnMut(usize)>,
    call: usize,
    /// writes that succeed
    room: usize,
}
impl core::fmt::Write for Inside<'_> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if let Some(f) = &mut self.then {
            f(self.call);
        }
        if self.room == 0 {
            return Err(core::fmt::Error);
        }
        self.room -= 1;
        self.out.push_str(s);
        Ok(())
    }
}

/// does something during some of the callbacks, and during some of the writing of text
struct During<'f, T> {
    inner: T,
    calls: usize,
    f: &'f mut dyn FnMut(usize),
    /// a text that came out differently
    odd: Option<String>,
}
impl<'f, T> During<'f, T> {
    fn new(inner: T, f: &'f mut dyn FnMut(usize)) -> Self {
        During { inner, calls: 0, f, odd: None }
    }
    fn due(&mut self) -> bool {
        self.calls += 1;
        self.calls < 6 || self.calls % 37 == 0
    }
    fn tick(&mut self) -> &mut T {
        if self.due() {
            (self.f)(self.calls);
        }
        &mut self.inner
    }
    /// the text, with the doing in the middle of it; and once more into a sink that fails
    fn text(&mut self, t: &core::fmt::Arguments) -> Option<String> {
        use core::fmt::Write;
        if !self.due() {
            return None;
        }
        let mut w = Inside { out: String::new(), then: None, call: 0, room: self.calls % 4 };
        let _ = w.write_fmt(*t);
        let mut w = Inside { out: String::new(), then: Some(&mut *self.f), call: self.calls, room: usize::MAX };
        let _ = w.write_fmt(*t);
        Some(w.out)
    }
    fn shown(&mut self, t: &core::fmt::Arguments) {
        if let Some(s) = self.text(t) {
            let plain = t.to_string();
            if s != plain && self.odd.is_none() {
                self.odd = Some(format!("{plain:?} is shown as {s:?} while its writing decodes another"));
            }
        }
    }
}
impl<T: ParseHandler> ParseHandler for During<'_, T> {
    fn begin_constructed(&mut self) {
        self.tick().begin_constructed()
    }
    fn end_constructed(&mut self) {
        self.tick().end_constructed()
    }
    fn on_type(&mut self, a: &ASNType) {
        self.shown(&format_args!("{a}"));
        self.inner.on_type(a)
    }
    fn on_error(&mut self, e: &ASNError) {
        self.shown(&format_args!("{e}"));
        self.tick().on_error(e)
    }
}
impl<T: LinePrinter> LinePrinter for During<'_, T> {
    fn begin_type(&mut self) {
        self.tick().begin_type()
    }
    fn begin_line(&mut self) {
        self.tick().begin_line()
    }
    fn print_fmt(&mut self, f: &core::fmt::Arguments) {
        match self.text(f) {
            Some(s) => self.inner.print_fmt(&format_args!("{s}")),
            None => self.inner.print_fmt(f),
        }
    }
    fn print_str(&mut self, s: &str) {
        self.tick().print_str(s)
    }
    fn println_fmt(&mut self, f: &core::fmt::Arguments) {
        match self.text(f) {
            Some(s) => self.inner.println_fmt(&format_args!("{s}")),
            None => self.inner.println_fmt(f),
        }
    }
    fn println_str(&mut self, s: &str) {
        self.tick().println_str(s)
    }
    fn end_type(&mut self) {
        self.tick().end_type()
    }
}

fn page(cert: &Certificate) -> String {
    let mut f = Fmt(String::new());
    cert.print(&mut f);
    f.0
}

/// decoding inside the callbacks of another decoding or printing; callbacks that panic; values
/// of several inputs alive at once
fn within(rep: &mut Rep, items: &[&[u8]], first: &[String]) {
    let n = items.len();
    let m = c(24);
    let short = |i: usize| items[i].len() < 3000;
    let (mut bad, mut inner) = (None, 0u64);
    for i in (0..n).filter(|i| short(*i)) {
        let j = (i + 1) % n;
        if !short(j) {
            continue;
        }
        let mut nested = |_: usize| {
            inner += 1;
            if snapshot(items[j]) != first[j] {
                bad.get_or_insert(format!("input {j} decodes differently inside a callback of input {i}"));
            }
        };
        let alone = walk_log(items[i]);
        let mut d = During::new(Log::default(), &mut nested);
        let r = parse_all(items[i], &mut d);
        let (mut log, odd) = (d.inner.0, d.odd);
        if let Some(w) = odd {
            bad.get_or_insert(w);
        }
        log.push(format!("={r:?}"));
        if log != alone {
            bad.get_or_insert(format!("input {i} decodes differently while callbacks decode another: {}", diff(&alone.join("\n"), &log.join("\n"))));
        }
        if let Ok(cert) = Certificate::parse(items[i]) {
            let alone = page(&cert);
            let mut nested = |_: usize| {
                inner += 1;
                if snapshot(items[j]) != first[j] {
                    bad.get_or_insert(format!("input {j} decodes differently while input {i} is printed"));
                }
            };
            let mut d = During::new(Fmt(String::new()), &mut nested);
            cert.print(&mut d);
            let got = d.inner.0;
            if got != alone {
                bad.get_or_insert(format!("input {i} prints differently while callbacks decode another: {}", diff(&alone, &got)));
            }
        }
    }
    rep.add("decodings inside callbacks", inner);
    // callbacks that panic, at every early and some later calls
    for i in (0..n).filter(|i| short(*i)) {
        for stop in [1, 2, 3, 5, 37] {
            let mut f = |k: usize| {
                if k >= stop {
                    std::panic::resume_unwind(Box::new(0u8));
                }
            };
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut d = During::new(Log::default(), &mut f);
                let _ = parse_all(items[i], &mut d);
            }));
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if let Ok(cert) = Certificate::parse(items[i]) {
                    cert.print(&mut During::new(Fmt(String::new()), &mut f));
                }
            }));
            rep.count("callbacks that panicked");
        }
        for k in [i, (i + 1) % n] {
            if short(k) && snapshot(items[k]) != first[k] {
                bad.get_or_insert(format!("input {k} decodes differently after a callback panicked"));
            }
        }
    }
    // all certificates alive at once, printed in turns
    let certs: Vec<(usize, Certificate, String)> = (0..n)
        .filter(|i| short(*i))
        .filter_map(|i| {
            let cert = Certificate::parse(items[i]).ok()?;
            let p = page(&cert);
            Some((i, cert, p))
        })
        .collect();
    for k in 0..certs.len() * 2 {
        let (i, cert, p) = &certs[k * 5 % certs.len()];
        rep.count("certificates printed in turns");
        if page(cert) != *p {
            bad.get_or_insert(format!("input {i} prints differently among others"));
        }
    }
    if let Some(w) = bad {
        rep.miss(m, || w);
    }
}

/// a sequence of inputs (each after its length): any order, any thread, same observations
pub fn history(input: &[u8], rep: &mut Rep) -> bool {
    let items = unpack(input);
    if items.is_empty() {
        return false;
    }
    rep.nontrivial = true;
    let m = c(24);
    let n = items.len();
    let first: Vec<String> = items.iter().map(|i| snapshot(i)).collect();
    let check = |rep: &mut Rep, i: usize, s: &str, how: &str| {
        if s != first[i] {
            rep.miss(m, || format!("input {i} decodes differently {how}: {}", diff(&first[i], s)));
        }
    };
    for i in (0..n).rev() {
        let s = snapshot(items[i]);
        check(rep, i, &s, "in reverse order");
    }
    for i in 0..n {
        let j = i * 7919 % n;
        let s = snapshot(items[j]);
        check(rep, j, &s, "in another order");
    }
    // every element of the histories next to every other
    if n <= 40 {
        for gap in 2..n.min(5) {
            for i in 0..n {
                let j = (i * gap) % n;
                let s = snapshot(items[j]);
                check(rep, j, &s, "in another order");
            }
        }
    }
    // the same buffer address with other contents
    let longest = items.iter().map(|i| i.len()).max().unwrap();
    let mut buf = vec![0u8; longest];
    for i in 0..n {
        buf[..items[i].len()].copy_from_slice(items[i]);
        let s = snapshot(&buf[..items[i].len()]);
        check(rep, i, &s, "in a reused buffer");
        rep.count("decodings in a reused buffer");
    }
    rep.add("decodings in other orders", 3 * n as u64);
    within(rep, &items, &first);
    // threads: all at once, each in its own order
    cov::ACTIVE.store(false, std::sync::atomic::Ordering::Relaxed);
    let threads = if cfg!(miri) { 2 } else { 8 };
    let barrier = std::sync::Barrier::new(threads);
    let (items, first) = (&items, &first);
    let results: Vec<std::thread::Result<Option<String>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let barrier = &barrier;
                s.spawn(move || {
                    barrier.wait();
                    for round in 0..2 {
                        for k in 0..n {
                            let i = match round {
                                0 => (k + t * n / threads) % n,
                                // everybody on the same input at the same time
                                _ => k,
                            };
                            let s = snapshot(items[i]);
                            if s != first[i] {
                                return Some(format!("input {i} decodes differently on thread {t}: {}", diff(&first[i], &s)));
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    rep.add("decodings on concurrent threads", 2 * (threads * n) as u64);
    for r in results {
        match r {
            Ok(None) => {}
            Ok(Some(w)) => rep.miss(m, || w),
            Err(_) => rep.miss(m, || "panic on a thread".into()),
        }
    }
    rep.mix(n as u64);
    true
}

pub fn unpack(input: &[u8]) -> Vec<&[u8]> {
    let mut items: Vec<&[u8]> = Vec::new();
    let mut p = 0;
    while p + 4 <= input.len() {
        let n = u32::from_be_bytes(input[p..p + 4].try_into().unwrap()) as usize;
        p += 4;
        if n > input.len() - p {
            break;
        }
        items.push(&input[p..p + n]);
        p += n;
    }
    items
}

/// an element through every decoder it can reach
pub fn light(item: &[u8]) -> String {
    let mut s = walk_log(item).join("\n");
    match item.first() {
        Some(0x30) => {
            let _ = write!(s, "{:?}", Certificate::parse(item).map_err(|e| e.to_string()));
        }
        Some(6) => {
            let attr = enc::tlv(0x31, &enc::tlv(0x30, &[item, &[0x0C, 1, b'x']].concat()));
            let _ = write!(s, "\n{}", name_text(&attr));
            for value in [&[3u8, 2, 5, 0xA0][..], &[4, 1, 7], &[0x0C, 1, b'm']] {
                let e = [item, &enc::tlv(4, value)].concat();
                let _ = write!(s, "\n{:?}", Extension::parse(&e));
            }
            let eku = [&[6, 3, 0x55, 0x1D, 0x25][..], &enc::tlv(4, &enc::tlv(0x30, item))].concat();
            let _ = write!(s, "\n{:?}", Extension::parse(&eku));
        }
        Some(0x80..=0x9E) => {
            let san = [&[6, 3, 0x55, 0x1D, 0x11][..], &enc::tlv(4, &enc::tlv(0x30, item))].concat();
            let _ = write!(s, "\n{:?}", Extension::parse(&san));
        }
        _ => {}
    }
    s
}

/// the first item before and after each of the others, and all of them backwards
pub fn memo(input: &[u8], rep: &mut Rep) -> bool {
    let items = unpack(input);
    let Some(first) = items.first() else { return false };
    rep.nontrivial = true;
    let m = c(24);
    let one = light(first);
    let base: Vec<String> = items.iter().map(|i| light(i)).collect();
    let mut n = 0u64;
    for (i, it) in items.iter().enumerate() {
        for (k, (x, want)) in [(*it, &base[i]), (*first, &one)].into_iter().enumerate() {
            let s = light(x);
            if s != *want {
                let other = if k == 0 { first } else { it };
                rep.miss(m, || format!("{} decodes differently after {}: {}", hex_short(x), hex_short(other), diff(want, &s)));
            }
        }
        n += 2;
    }
    for i in (0..items.len()).rev() {
        let s = light(items[i]);
        if s != base[i] {
            rep.miss(m, || format!("{} decodes differently in reverse order: {}", hex_short(items[i]), diff(&base[i], &s)));
        }
        n += 1;
    }
    rep.add("decodings next to near relatives", n);
    rep.mix(first.first().copied().unwrap_or(0) as u64 + 500);
    true
}

// --------------------------------------------------------------------------- equality

/// calls f with the first element of an input, if it decodes
struct First<'f> {
    f: &'f mut dyn FnMut(&ASNType),
    done: bool,
}
impl ParseHandler for First<'_> {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, a: &ASNType) {
        if !self.done {
            self.done = true;
            (self.f)(a);
        }
    }
    fn on_error(&mut self, _: &ASNError) {}
}
fn first(input: &[u8], f: &mut dyn FnMut(&ASNType)) {
    let _ = parse_all(input, &mut First { f, done: false });
}

/// whether two elements denote the same value; None if that is a matter of taste
fn same_value(a: &[u8], b: &[u8], x: &der_ref::Elem, y: &der_ref::Elem) -> Option<bool> {
    use der_ref::{Kind, Val};
    let (ca, cb) = (&a[x.coff..x.end()], &b[y.coff..y.end()]);
    if x.kind != y.kind || x.tag != y.tag {
        return Some(false);
    }
    if ca == cb {
        // primitive and constructed context-specific elements
        return (x.constructed == y.constructed).then_some(true);
    }
    match (&x.val, &y.val) {
        (Val::Bits { unused: u }, Val::Bits { unused: v }) => {
            let bits = |c: &[u8], u: u8| (c.len() - 1) * 8 - u as usize;
            if bits(ca, *u) != bits(cb, *v) {
                return Some(false);
            }
            let n = bits(ca, *u);
            let bit = |c: &[u8], i: usize| c[1 + i / 8] >> (7 - i % 8) & 1;
            // same bits, other padding
            ((0..n).any(|i| bit(ca, i) != bit(cb, i))).then_some(false)
        }
        (Val::Oid(p), Val::Oid(q)) => Some(p == q),
        (Val::Time(p), Val::Time(q)) => Some(p == q),
        _ if x.kind == Kind::Int && (x.lenient || y.lenient) => None,
        _ => Some(false),
    }
}

/// equality of decoded values and errors, and clones, over every pair of some elements
pub fn equal(input: &[u8], rep: &mut Rep) -> bool {
    let items = unpack(input);
    let m = c(28);
    let refs: Vec<Option<der_ref::Elem>> =
        items.iter().map(|i| if i.is_empty() { None } else { der_ref::element(i, 0, i.len()).ok() }).collect();
    rep.nontrivial = !items.is_empty();
    for (a, x) in items.iter().zip(&refs) {
        // another place, so that nothing can go by the address
        let moved = a.to_vec();
        for (b, y) in items.iter().zip(&refs).chain([(&&moved[..], x)]) {
            let (Some(x), Some(y)) = (x, y) else { continue };
            let want = same_value(a, b, x, y);
            let mut got = None;
            first(a, &mut |p| {
                first(b, &mut |q| {
                    got = Some((p == q, q == p, p != q));
                    if let (ASNType::ObjectIdentifier(p), ASNType::ObjectIdentifier(q)) = (p, q) {
                        let k = p.value.clone();
                        if k != p.value || (k == q.value) != (p.value == q.value) || k.to_string() != p.value.to_string() {
                            rep.miss(m, || format!("a clone of {:?} differs from it", p.value));
                        }
                        if (p.value == q.value) != (p.value.values() == q.value.values()) {
                            rep.miss(m, || format!("{:?} == {:?} is {}", p.value, q.value, p.value == q.value));
                        }
                    }
                    if (p.get_id() == q.get_id()) != (x.kind == y.kind) {
                        rep.miss(m, || format!("type identifiers of {} and {} compare wrongly", hex_short(a), hex_short(b)));
                    }
                })
            });
            let Some((eq, back, ne)) = got else { continue };
            rep.count("pairs of values compared");
            if eq != back || eq == ne {
                rep.miss(m, || format!("{} and {}: == is {eq}, turned round {back}, != is {ne}", hex_short(a), hex_short(b)));
            }
            if want.is_some_and(|w| w != eq) {
                rep.miss(m, || format!("{} and {} compare as {}", hex_short(a), hex_short(b), if eq { "equal" } else { "different" }));
            }
            if eq {
                rep.count("pairs of equal values");
            }
        }
    }
    // errors
    let errors: Vec<(usize, ASNError)> =
        items.iter().enumerate().filter_map(|(i, x)| parse_all(x, &mut Elements(0)).err().map(|e| (i, e))).collect();
    for (i, e) in &errors {
        for (j, f) in &errors {
            let (s, t) = (e.to_string(), f.to_string());
            rep.count("pairs of errors compared");
            if (e == f) != (f == e) || (s != t && e == f) || (i == j && e != f) {
                rep.miss(m, || format!("errors {s:?} and {t:?} compare as {}", if e == f { "equal" } else { "different" }));
            }
        }
        if parse_all(items[*i], &mut Elements(0)).err().as_ref() != Some(e) {
            rep.miss(m, || format!("the error {e} differs from itself"));
        }
    }
    rep.mix(items.first().and_then(|x| x.first()).copied().unwrap_or(0) as u64 + 900);
    true
}

// --------------------------------------------------------------------- command-line tool

struct Lines {
    out: Vec<u8>,
    depth: usize,
    error: Option<String>,
}
impl Lines {
    fn line(&mut self, extra: usize, s: &str) {
        self.out.extend(std::iter::repeat(b' ').take(2 * (self.depth + extra)));
        self.out.extend_from_slice(s.as_bytes());
        self.out.push(b'\n');
    }
}
impl ParseHandler for Lines {
    fn begin_constructed(&mut self) {
        self.depth += 1
    }
    fn end_constructed(&mut self) {
        self.depth = self.depth.saturating_sub(1)
    }
    fn on_type(&mut self, a: &ASNType) {
        self.line(0, &a.to_string());
        if let ASNType::BitString(b) = a {
            if let Some(o) = b.value.octets() {
                for ch in o.chunks(16) {
                    self.line(1, &der_eval::hex_text(ch));
                }
            }
        }
    }
    fn on_error(&mut self, e: &ASNError) {
        self.error = Some(e.to_string())
    }
}

/// ((standard output, error text), accepted, whether the reference decides the outcome)
pub fn cli_der(input: &[u8]) -> ((Vec<u8>, String), bool, bool) {
    let mut l = Lines { out: vec![], depth: 0, error: None };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_all(input, &mut l)));
    let err = match &r {
        Ok(Err(e)) => e.to_string(),
        _ => String::new(),
    };
    let items = der_ref::walk(input);
    if items.iter().any(|i| matches!(i, Item::Elem(e) if e.lenient)) {
        return ((l.out, err), matches!(r, Ok(Ok(()))), false);
    }
    let (lines, ok) = crate::render_ref::der_lines(input);
    ((crate::render_ref::console(&lines), err), ok, true)
}

pub fn cli_cert(input: &[u8]) -> ((Vec<u8>, String), bool, bool) {
    let r = std::panic::catch_unwind(|| {
        let cert = match Certificate::parse(input) {
            Ok(c) => c,
            Err(e) => return Err(e.to_string()),
        };
        let mut rec = crate::x509_eval::Rec::default();
        cert.print(&mut rec);
        Ok(crate::render_ref::console(&rec.lines))
    });
    match r {
        Ok(Ok(out)) => ((out, String::new()), true, true),
        Ok(Err(e)) => ((vec![], e), false, true),
        Err(_) => ((vec![], String::new()), false, false),
    }
}

// ------------------------------------------------------------------------- huge contents

struct Big<'a> {
    input: &'a [u8],
    items: &'a [Item],
    next: usize,
    bad: Option<String>,
}
impl Big<'_> {
    fn see(&mut self, what: &str, ok: impl Fn(&Item, &[u8]) -> bool) {
        match self.items.get(self.next) {
            Some(i) if ok(i, self.input) => self.next += 1,
            i => {
                let i = format!("{i:?}");
                self.bad.get_or_insert_with(|| format!("{what} where {i} was due"));
            }
        }
    }
}
impl ParseHandler for Big<'_> {
    fn begin_constructed(&mut self) {
        self.see("begin", |i, _| *i == Item::Begin)
    }
    fn end_constructed(&mut self) {
        self.see("end", |i, _| *i == Item::End)
    }
    fn on_type(&mut self, a: &ASNType) {
        let k = crate::der_eval::kind_of(a);
        let octets = match a {
            ASNType::OctetString(c) => Some((c.value.as_ptr() as usize, c.value.len())),
            _ => None,
        };
        self.see(&format!("{k:?} of {octets:?}"), |i, input| match i {
            Item::Elem(e) => e.kind == k && octets.map_or(true, |(p, l)| p == input.as_ptr() as usize + e.coff && l == e.clen),
            _ => false,
        })
    }
    fn on_error(&mut self, e: &ASNError) {
        self.see(&format!("error {e:?}"), |i, _| matches!(i, Item::Fault { .. }))
    }
}

/// contents too large to write down: the total size (8 octets), then the first octets; the
/// rest is zeros, which nobody needs to touch
pub fn huge(input: &[u8], rep: &mut Rep) -> bool {
    let Some(total) = input.get(..8) else { return false };
    let total = u64::from_be_bytes(total.try_into().unwrap()) as usize;
    let head = &input[8..];
    if total < head.len() || total == 0 {
        return false;
    }
    // zeroed pages of the system, present only where they are written
    let layout = std::alloc::Layout::array::<u8>(total).unwrap();
    let p = unsafe { std::alloc::alloc_zeroed(layout) };
    if p.is_null() {
        rep.count("huge inputs that could not be had");
        return false;
    }
    let mut v = unsafe { Vec::from_raw_parts(p, total, total) };
    v[..head.len()].copy_from_slice(head);
    rep.nontrivial = true;
    let items = crate::der_ref::walk(&v);
    rep.mix(items.len() as u64);
    let mut h = Big { input: &v, items: &items, next: 0, bad: None };
    let r = parse_all(&v, &mut h);
    if h.bad.is_none() && h.next < items.len() {
        h.bad = Some(format!("the walk ended before {:?}", items[h.next]));
    }
    let fault = matches!(items.last(), Some(Item::Fault { .. }));
    if h.bad.is_none() && r.is_ok() == fault {
        h.bad = Some(format!("{:?} returned", r));
    }
    if let Some(b) = h.bad {
        rep.miss(c(6), || format!("{b}; in {total} octets that begin with {}", hex_short(head)));
    }
    rep.count(if fault { "huge inputs refused" } else { "huge inputs accepted" });
    true
}
