//! Values built by hand, through the public constructors and fields: what was given is what
//! the accessors, the text and the printed form show, for any arguments.

use crate::der_eval::{hex_text, int_text, oid_text};
use crate::der_ref;
use crate::render_ref::{self, Line, PURPOSES, USAGES};
use crate::rep::{c, hex_short, Rep};
use crate::x509_eval::Rec;
use crate::x509_ref::{self as xr, Span};
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::Printable;
use rx509::x509::*;

/// arguments out of the octets of a case; zeros and nothing once they are used up
struct Args<'a> {
    b: &'a [u8],
    at: usize,
}
impl<'a> Args<'a> {
    fn u8(&mut self) -> u8 {
        let v = self.b.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        v
    }
    fn u32(&mut self) -> u32 {
        (0..4).fold(0, |v, _| v << 8 | self.u8() as u32)
    }
    fn u64(&mut self) -> u64 {
        (self.u32() as u64) << 32 | self.u32() as u64
    }
    fn flag(&mut self) -> bool {
        self.u8() & 1 == 1
    }
    /// a slice of the case: a count, then that many octets (255: the rest)
    fn octets(&mut self) -> (&'a [u8], Span) {
        let n = self.u8() as usize;
        let at = self.at.min(self.b.len());
        let n = if n == 255 { self.b.len() - at } else { n.min(self.b.len() - at) };
        self.at = at + n;
        (&self.b[at..at + n], Span { off: at, len: n })
    }
    fn text(&mut self) -> &'a str {
        let (b, _) = self.octets();
        match std::str::from_utf8(b) {
            Ok(s) => s,
            Err(e) => std::str::from_utf8(&b[..e.valid_up_to()]).unwrap(),
        }
    }
    /// arcs: registered ones and their neighbours, or any
    fn arcs(&mut self) -> Vec<u32> {
        let k = self.u8();
        if k < 128 {
            static ALL: std::sync::OnceLock<Vec<Vec<u64>>> = std::sync::OnceLock::new();
            let all = ALL.get_or_init(crate::oids::registered);
            let k = k as usize | (self.u8() as usize) << 7;
            let mut v: Vec<u32> = all[k % all.len()].iter().map(|x| *x as u32).collect();
            match self.u8() {
                0 => v.push(0),
                1 => {
                    v.pop();
                }
                2 => *v.last_mut().unwrap() ^= 1,
                3 => *v.last_mut().unwrap() |= 1 << 31,
                4 => v[0] += 1,
                5 => v.insert(0, 2),
                _ => {}
            }
            return v;
        }
        (0..k % 20).map(|_| if self.u8() < 128 { self.u8() as u32 } else { self.u32() }).collect()
    }
}

#[derive(Default)]
struct Page {
    lines: Vec<Line>,
    d: usize,
}
impl Page {
    fn line(&mut self, s: impl AsRef<str>) {
        self.lines.push(Line { depth: self.d, text: s.as_ref().as_bytes().to_vec() });
    }
    fn under(&mut self, s: impl AsRef<str>, f: impl FnOnce(&mut Page)) {
        self.line(s);
        self.d += 1;
        f(self);
        self.d -= 1;
    }
    fn hex(&mut self, b: &[u8]) {
        for ch in b.chunks(16) {
            self.line(hex_text(ch));
        }
    }
}

fn arcs_text(a: &[u32]) -> String {
    oid_text(&a.iter().map(|x| *x as u64).collect::<Vec<_>>())
}

fn printed(rep: &mut Rep, what: &str, v: &dyn Printable, page: Page) {
    let mut r = Rec::default();
    v.print(&mut r);
    r.close();
    rep.count("built values printed");
    rep.mix(r.lines.len() as u64);
    if let Some(w) = r.wrong {
        rep.miss(c(29), || format!("printing a built {what}: {w}"));
        return;
    }
    let (g, w) = (&r.lines, &page.lines);
    for i in 0..g.len().max(w.len()) {
        let (a, b) = (g.get(i).map(|l| &l.text), w.get(i).map(|l| &l.text));
        if a != b {
            let show = |x: Option<&Vec<u8>>| x.map(|t| String::from_utf8_lossy(t).into_owned());
            rep.miss(c(29), || format!("line {i} of a built {what} is {:?}, expected {:?}", show(a), show(b)));
            return;
        }
    }
    let (gp, wp) = (render_ref::parents(g), render_ref::parents(w));
    if gp != wp {
        rep.miss(c(29), || format!("lines of a built {what} are nested in the wrong level"));
    }
}

/// the same place and extent
fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && (a.is_empty() || a.as_ptr() == b.as_ptr())
}

fn integer(rep: &mut Rep, b: &[u8]) {
    let i = ASNInteger::new(b);
    if !same(i.bytes, b) {
        rep.miss(c(29), || format!("ASNInteger::new({}) holds {}", hex_short(b), hex_short(i.bytes)));
    }
    if i != ASNInteger::new(&b.to_vec()) {
        rep.miss(c(29), || format!("ASNInteger::new({}) differs from itself", hex_short(b)));
    }
    let v = i.as_i32();
    let plain = !b.is_empty() && (b.len() <= 4 || der_ref::int_minimal(b));
    let want = if b.is_empty() || b.len() > 4 { None } else { der_ref::int_value(b).map(|x| x as i32) };
    if (plain || b.is_empty()) && v != want {
        rep.miss(c(29), || format!("ASNInteger::new({}).as_i32() is {v:?}", hex_short(b)));
    }
    let s = i.to_string();
    if plain && s != int_text(b) {
        rep.miss(c(29), || format!("ASNInteger::new({}) displays as {s:?}", hex_short(b)));
    }
    let (id, text) = {
        let t = Integer::asn(ASNInteger::new(b));
        (t.get_id(), t.to_string())
    };
    if id != ASNTypeId::Integer || text != format!("Integer: {s}") {
        rep.miss(c(29), || format!("a built integer is a {id:?} shown as {text:?}"));
    }
}

fn bit_string(rep: &mut Rep, unused: u8, b: &[u8]) {
    let v = ASNBitString::new(unused, b);
    let bits: Vec<bool> = v.iter().take(8 * b.len() + 64).collect();
    let size = v.size();
    if bits.len() != size {
        rep.miss(c(29), || format!("ASNBitString::new({unused}, {}) of size {size} yields {} bits", hex_short(b), bits.len()));
    }
    if size > 8 * b.len() {
        rep.miss(c(29), || format!("ASNBitString::new({unused}, {}) is of size {size}", hex_short(b)));
    }
    if let Some(i) = (0..bits.len().min(8 * b.len())).find(|i| bits[*i] != (b[i / 8] >> (7 - i % 8) & 1 == 1)) {
        rep.miss(c(29), || format!("bit {i} of ASNBitString::new({unused}, {}) is wrong", hex_short(b)));
    }
    if unused < 8 {
        let want = (8 * b.len()).saturating_sub(unused as usize);
        if size != want {
            rep.miss(c(29), || format!("ASNBitString::new({unused}, {}) is of size {size} instead of {want}", hex_short(b)));
        }
    }
    match v.octets() {
        Some(o) if unused != 0 || !same(o, b) => rep.miss(c(29), || format!("octets() of ASNBitString::new({unused}, {}) are {}", hex_short(b), hex_short(o))),
        None if unused == 0 => rep.miss(c(29), || format!("no octets() of ASNBitString::new(0, {})", hex_short(b))),
        _ => {}
    }
    let mut p = Page::default();
    if unused == 0 {
        p.hex(b);
    }
    printed(rep, "bit string", &v, p);
    if v != ASNBitString::new(unused, b) || (unused < 7 && !b.is_empty() && v == ASNBitString::new(unused + 1, b)) {
        rep.miss(c(29), || format!("ASNBitString::new({unused}, {}) compares wrongly", hex_short(b)));
    }
}

fn identifier(rep: &mut Rep, a: &[u32]) {
    let v = ASNObjectIdentifier::new(a.to_vec());
    if v.values() != a {
        rep.miss(c(29), || format!("ASNObjectIdentifier::new({a:?}) holds {:?}", v.values()));
    }
    let s = v.to_string();
    if !a.is_empty() && s != arcs_text(a) {
        rep.miss(c(29), || format!("ASNObjectIdentifier::new({a:?}) displays as {s:?}"));
    }
    let mut other = a.to_vec();
    match other.last_mut() {
        Some(x) => *x = x.wrapping_add(1),
        None => other.push(0),
    }
    if v.clone() != v || v == ASNObjectIdentifier::new(other) {
        rep.miss(c(29), || format!("ASNObjectIdentifier::new({a:?}) compares wrongly"));
    }
    let want = crate::gen::EKU_OIDS.iter().position(|o| o.iter().map(|x| *x as u32).eq(a.iter().copied()));
    let got = ExtendedKeyUsagePurpose::try_from_id(&v).map(|p| format!("{p:?}"));
    if got.as_deref() != want.map(|i| PURPOSES[i]) {
        rep.miss(c(29), || format!("{a:?} taken for the purpose {got:?}"));
    }
    let t = ObjectIdentifier::asn(v);
    if t.get_id() != ASNTypeId::ObjectIdentifier || t.to_string() != format!("ObjectIdentifier: {s}") {
        rep.miss(c(29), || format!("a built identifier is a {:?} shown as {:?}", t.get_id(), t.to_string()));
    }
}

/// what an element is made of; nothing for bit strings, whose padding may or may not count
fn payload(t: &ASNType) -> Option<(ASNTypeId, Vec<u8>)> {
    let p = match t {
        ASNType::Boolean(x) => vec![x.value as u8],
        ASNType::Sequence(x) => x.value.to_vec(),
        ASNType::Set(x) => x.value.to_vec(),
        ASNType::Integer(x) => x.value.bytes.to_vec(),
        ASNType::PrintableString(x) => x.value.as_bytes().to_vec(),
        ASNType::IA5String(x) => x.value.as_bytes().to_vec(),
        ASNType::UTF8String(x) => x.value.as_bytes().to_vec(),
        ASNType::Null => vec![],
        ASNType::UTCTime(x) | ASNType::GeneralizedTime(x) => x.value.to_be_bytes().to_vec(),
        ASNType::BitString(_) => return None,
        ASNType::OctetString(x) => x.value.to_vec(),
        ASNType::ObjectIdentifier(x) => x.value.values().iter().flat_map(|a| a.to_be_bytes()).collect(),
        ASNType::ExplicitTag(x) => [&[x.value.value][..], x.value.contents].concat(),
    };
    Some((t.get_id(), p))
}

/// one element of every type through its `asn`
fn element<'a>(a: &mut Args<'a>) -> (ASNType<'a>, ASNTypeId, String) {
    match a.u8() % 14 {
        0 => {
            let v = a.flag();
            (Boolean::asn(v), ASNTypeId::Boolean, format!("Boolean: {v}"))
        }
        1 => (Sequence::asn(a.octets().0), ASNTypeId::Sequence, "Sequence".into()),
        2 => (Set::asn(a.octets().0), ASNTypeId::Set, "Set".into()),
        3 => {
            let b = a.octets().0;
            (Integer::asn(ASNInteger::new(b)), ASNTypeId::Integer, format!("Integer: {}", ASNInteger::new(b)))
        }
        4 => {
            let s = a.text();
            (PrintableString::asn(s), ASNTypeId::PrintableString, format!("PrintableString: {s}"))
        }
        5 => {
            let s = a.text();
            (IA5String::asn(s), ASNTypeId::IA5String, format!("IA5String: {s}"))
        }
        6 => {
            let s = a.text();
            (UTF8String::asn(s), ASNTypeId::UTF8String, format!("UTF8String: {s}"))
        }
        7 => (ASNType::Null, ASNTypeId::Null, "Null".into()),
        8 => {
            let v = a.u64();
            (UtcTime::asn(v), ASNTypeId::UTCTime, format!("UTCTime: {v}"))
        }
        9 => {
            let v = a.u64();
            (ASNType::GeneralizedTime(UtcTime::from_seconds_since_epoch(v)), ASNTypeId::GeneralizedTime, format!("GeneratlizedTime: {v}"))
        }
        10 => (BitString::asn(ASNBitString::new(a.u8(), a.octets().0)), ASNTypeId::BitString, "BitString".into()),
        11 => (OctetString::asn(a.octets().0), ASNTypeId::OctetString, "OctetString".into()),
        12 => {
            let v = ASNObjectIdentifier::new(a.arcs());
            let s = format!("ObjectIdentifier: {v}");
            (ObjectIdentifier::asn(v), ASNTypeId::ObjectIdentifier, s)
        }
        _ => {
            let t = a.u8();
            (ExplicitTag::asn(ASNExplicitTag::new(t, a.octets().0)), ASNTypeId::ExplicitTag, format!("[{t}]"))
        }
    }
}

fn extension<'a>(rep: &mut Rep, a: &mut Args<'a>) {
    let (arcs, critical) = (a.arcs(), a.flag());
    let mut p = Page { d: 1, ..Default::default() };
    p.line(format!("extension id: {}", ASNObjectIdentifier::new(arcs.clone())));
    p.line(format!("critical: {critical}"));
    let (name, content): (&str, SpecificExtension<'a>) = match a.u8() % 7 {
        0 => {
            let b = a.octets().0;
            p.under("key identifier:", |p| p.hex(b));
            ("Subject Key Identifier", SubjectKeyIdentifier { key_identifier: b }.into())
        }
        1 => {
            let f: Vec<bool> = (0..9).map(|_| a.flag()).collect();
            p.under("usages:", |p| {
                for (b, t) in f.iter().zip(USAGES) {
                    if *b {
                        p.line(t);
                    }
                }
            });
            let k = KeyUsage {
                digital_signature: f[0],
                content_commitment: f[1],
                key_encipherment: f[2],
                data_encipherment: f[3],
                key_agreement: f[4],
                key_cert_sign: f[5],
                crl_sign: f[6],
                encipher_only: f[7],
                decipher_only: f[8],
            };
            ("Key Usage", k.into())
        }
        2 => {
            let n = a.u8() % 12;
            let mut names = vec![];
            p.under("names:", |p| {
                for _ in 0..n {
                    names.push(match a.u8() % 9 {
                        0 => {
                            p.line("Unsupported name type");
                            GeneralName::OtherName(a.octets().0)
                        }
                        1 => {
                            let s = a.text();
                            p.line(format!("RFC822 Name: {s}"));
                            GeneralName::Rfc822Name(s)
                        }
                        2 => {
                            let s = a.text();
                            p.line(format!("DNS Name: {s}"));
                            GeneralName::DnsName(s)
                        }
                        3 => {
                            p.line("Unsupported name type");
                            GeneralName::X400Address
                        }
                        4 => {
                            p.line("Unsupported name type");
                            GeneralName::DirectoryName
                        }
                        5 => {
                            p.line("Unsupported name type");
                            GeneralName::EdiPartyName
                        }
                        6 => {
                            let s = a.text();
                            p.line(format!("Uniform Resource Identifier: {s}"));
                            GeneralName::UniformResourceIdentifier(s)
                        }
                        7 => {
                            let b = a.octets().0;
                            p.under("IP Address:", |p| p.hex(b));
                            GeneralName::IpAddress(b)
                        }
                        _ => {
                            let v = ASNObjectIdentifier::new(a.arcs());
                            p.line(format!("Registered ID: {v}"));
                            GeneralName::RegisteredId(v)
                        }
                    });
                }
            });
            ("Subject Alternative Name", SubjectAlternativeName { names }.into())
        }
        3 => {
            let (ca, length) = (a.flag(), a.flag().then(|| a.u32() as i32));
            p.line(format!("CA: {ca}"));
            if let Some(l) = length {
                p.line(format!("Path Length Contraint: {l}"));
            }
            ("Basic Constraints", BasicConstraints { ca, path_length_constraint: length }.into())
        }
        4 => {
            let n = a.u8() % 20;
            let mut v = vec![];
            p.under("usages:", |p| {
                for _ in 0..n {
                    let k = a.u8() as usize % 6;
                    p.line(PURPOSES[k]);
                    use ExtendedKeyUsagePurpose::*;
                    v.push([ServerAuth, ClientAuth, CodeSigning, EmailProtection, TimeStamping, OCSPSigning].into_iter().nth(k).unwrap());
                }
            });
            ("Extended Key Usage", ExtendedKeyUsage { ext_key_usages: v }.into())
        }
        5 => {
            let role = a.text();
            p.line(format!("role: {role}"));
            ("Modbus Role", ModbusRole { role }.into())
        }
        _ => {
            let b = a.octets().0;
            p.under("raw content:", |p| p.hex(b));
            ("Unknown", SpecificExtension::Unknown(b))
        }
    };
    let e = Extension::new(ASNObjectIdentifier::new(arcs.clone()), critical, content);
    if e.extn_id.values() != arcs || e.critical != critical || e.content.name() != name {
        rep.miss(c(29), || format!("an extension built with {arcs:?}, {critical} and {name} is {e:?}"));
    }
    p.lines.insert(0, Line { depth: 0, text: name.as_bytes().to_vec() });
    printed(rep, "extension", &e, p);
}

fn name(rep: &mut Rep, a: &mut Args) {
    let mut v = [None; 6];
    for x in &mut v {
        *x = a.flag().then(|| a.text());
    }
    let n = RelativeDistinguishedName {
        country_name: v[0],
        state_or_province_unit_name: v[1],
        locality_name: v[2],
        organization: v[3],
        organizational_unit_name: v[4],
        common_name: v[5],
    };
    let mut p = Page::default();
    for (l, x) in ["C", "ST", "L", "O", "OU", "CN"].iter().zip(v) {
        if let Some(x) = x {
            p.line(format!("{l}: {x}"));
        }
    }
    printed(rep, "name", &n, p);
}

fn algorithm<'a>(a: &mut Args<'a>) -> (AlgorithmIdentifier<'a>, String) {
    let o = ASNObjectIdentifier::new(a.arcs());
    let s = format!("algorithm: {o}");
    let params = if a.flag() { Some(element(a).0) } else { None };
    (AlgorithmIdentifier::new(o, params), s)
}

fn bits<'a>(a: &mut Args<'a>) -> (ASNBitString<'a>, &'a [u8]) {
    let (unused, b) = (a.u8() % 8, a.octets().0);
    (ASNBitString::new(unused, b), if unused == 0 { b } else { &[] })
}

fn certificate<'a>(rep: &mut Rep, a: &mut Args<'a>, input: &'a [u8]) {
    let raw = a.octets().0;
    let version = a.u8() % 3;
    let serial = a.octets().0;
    let (sig, sig_s) = algorithm(a);
    let (issuer, issuer_at) = a.octets();
    let (nb, na) = (a.u64(), a.u64());
    let (subject, subject_at) = a.octets();
    let (key_alg, key_alg_s) = algorithm(a);
    let (key, key_b) = bits(a);
    let uid1 = a.flag().then(|| bits(a));
    let uid2 = a.flag().then(|| bits(a));
    let (outer, outer_s) = algorithm(a);
    let (value, value_b) = bits(a);
    let mut p = Page::default();
    let called = |p: &mut Page, label: &str, b: &'a [u8], at: Span| {
        let decoded = Name { inner: b }.parse().is_ok();
        match (xr::name(input, at), decoded) {
            (Ok(n), true) => p.under(format!("{label}:"), |p| {
                for (i, l) in ["C: ", "ST: ", "L: ", "O: ", "OU: ", "CN: "].iter().enumerate() {
                    if let Some(v) = n.comp[i] {
                        p.line(format!("{l}{}", String::from_utf8_lossy(v.of(input))));
                    }
                }
            }),
            _ => p.under(format!("{label} (raw):"), |p| p.hex(b)),
        }
    };
    p.under("tbs certificate:", |p| {
        p.line(format!("version: V{}", version + 1));
        p.line(format!("serial number: {}", ASNInteger::new(serial)));
        p.under("signature:", |p| p.line(&sig_s));
        called(p, "issuer", issuer, issuer_at);
        p.under("validity:", |p| {
            p.line(format!("not before: {nb}"));
            p.line(format!("not after: {na}"));
        });
        called(p, "subject", subject, subject_at);
        p.under("subject public key info:", |p| {
            p.under("algorithm:", |p| p.line(&key_alg_s));
            p.under("subject public key:", |p| p.hex(key_b));
        });
        if let Some(u) = &uid1 {
            p.under("issuer unique ID:", |p| p.hex(u.1));
        }
        if let Some(u) = &uid2 {
            p.under("subject unique ID:", |p| p.hex(u.1));
        }
    });
    p.under("signature algorithm:", |p| p.line(&outer_s));
    p.under("signature value:", |p| p.hex(value_b));
    let at = UtcTime::from_seconds_since_epoch;
    let validity = Validity { not_before: at(nb), not_after: at(na) };
    for t in [nb, na, nb.wrapping_sub(1), na.wrapping_add(1)] {
        if validity.is_valid(at(t)) != (nb <= t && t <= na) {
            rep.miss(c(29), || format!("a built validity of [{nb}, {na}] is wrong about {t}"));
        }
    }
    let v = [Version::V1, Version::V2, Version::V3][version as usize];
    let tbs = TBSCertificate::new(
        v,
        ASNInteger::new(serial),
        sig,
        Name { inner: issuer },
        validity,
        Name { inner: subject },
        SubjectPublicKeyInfo { algorithm: key_alg, subject_public_key: key },
        uid1.map(|u| u.0),
        uid2.map(|u| u.0),
        None,
    );
    let tbs_certificate = Constructed::new(raw, tbs);
    if !same(tbs_certificate.bytes, raw) {
        rep.miss(c(29), || "Constructed::new holds other octets".into());
    }
    let cert = Certificate { tbs_certificate, signature_algorithm: outer, signature_value: value };
    // every field against the same arguments once more
    let t = &cert.tbs_certificate.value;
    let b = &mut Args { b: input, at: 1 };
    b.octets();
    b.u8();
    let mut held = vec![("version", t.version == v), ("serial number", same(t.serial_number.bytes, b.octets().0))];
    held.push(("signature", is_algorithm(&t.signature, b)));
    held.push(("issuer", same(t.issuer.inner, b.octets().0)));
    held.push(("not before", t.validity.not_before.value == b.u64()));
    held.push(("not after", t.validity.not_after.value == b.u64()));
    held.push(("subject", same(t.subject.inner, b.octets().0)));
    held.push(("key algorithm", is_algorithm(&t.subject_public_key_info.algorithm, b)));
    held.push(("key", t.subject_public_key_info.subject_public_key == bits(b).0));
    held.push(("issuer unique id", t.issuer_unique_id == b.flag().then(|| bits(b).0)));
    held.push(("subject unique id", t.subject_unique_id == b.flag().then(|| bits(b).0)));
    held.push(("signature algorithm", is_algorithm(&cert.signature_algorithm, b)));
    held.push(("signature value", cert.signature_value == bits(b).0));
    held.push(("extensions", t.extensions.is_none()));
    for (what, ok) in held {
        rep.count("built fields compared");
        if !ok {
            rep.miss(c(29), || format!("the {what} of a built certificate is not the one given"));
        }
    }
    printed(rep, "certificate", &cert, p);
}

/// the algorithm the next arguments build
fn is_algorithm(x: &AlgorithmIdentifier, a: &mut Args) -> bool {
    let arcs = a.arcs();
    let params = if a.flag() { Some(element(a).0) } else { None };
    x.algorithm.values() == arcs && x.parameters == params
}

/// a decoded certificate taken apart and built again prints the same
fn again(rep: &mut Rep, input: &[u8]) {
    let (Ok(a), Ok(b)) = (Certificate::parse(input), Certificate::parse(input)) else { return };
    rep.count("certificates taken apart and built again");
    let t = a.tbs_certificate.value;
    fn alg(x: AlgorithmIdentifier) -> AlgorithmIdentifier {
        AlgorithmIdentifier::new(ASNObjectIdentifier::new(x.algorithm.values().to_vec()), x.parameters)
    }
    let tbs = TBSCertificate::new(
        t.version,
        ASNInteger::new(t.serial_number.bytes),
        alg(t.signature),
        Name { inner: t.issuer.inner },
        t.validity,
        Name { inner: t.subject.inner },
        t.subject_public_key_info,
        t.issuer_unique_id,
        t.subject_unique_id,
        t.extensions,
    );
    let x = Certificate {
        tbs_certificate: Constructed::new(a.tbs_certificate.bytes, tbs),
        signature_algorithm: alg(a.signature_algorithm),
        signature_value: a.signature_value,
    };
    let (d, e) = (format!("{b:?}"), format!("{x:?}"));
    if d != e {
        rep.miss(c(29), || format!("a certificate taken apart and built again is {e} instead of {d}"));
    }
    let mut r = Rec::default();
    b.print(&mut r);
    printed(rep, "certificate, decoded and taken apart,", &x, Page { lines: r.lines, d: 0 });
}

pub fn built(input: &[u8], rep: &mut Rep) -> bool {
    let Some(kind) = input.first().copied() else { return false };
    rep.nontrivial = true;
    rep.mix(kind as u64 % 9);
    rep.count("values built");
    let a = &mut Args { b: input, at: 1 };
    match kind % 9 {
        0 => integer(rep, &input[1..]),
        1 => {
            let unused = a.u8();
            bit_string(rep, unused, input.get(2..).unwrap_or(&[]))
        }
        2 => {
            let v = a.arcs();
            identifier(rep, &v)
        }
        3 => extension(rep, a),
        4 => name(rep, a),
        5 => certificate(rep, a, input),
        6 => {
            let (t, id, text) = element(a);
            if t.get_id() != id {
                rep.miss(c(29), || format!("a built {id:?} is a {:?}", t.get_id()));
            }
            let s = t.to_string();
            if s != text {
                rep.miss(c(29), || format!("a built {id:?} is shown as {s:?} instead of {text:?}"));
            }
            let (u, ..) = element(&mut Args { b: input, at: 1 });
            if t != u {
                rep.miss(c(29), || format!("{s:?} built twice differs"));
            }
            // one that differs by an octet of what it is made from
            let n = input.len();
            let mut other = input.to_vec();
            for at in [2, 9, n / 2, n - 2, n - 1] {
                if at < 2 || at >= n {
                    continue;
                }
                other[at] ^= 1;
                let (w, ..) = element(&mut Args { b: &other, at: 1 });
                if let (Some(x), Some(y)) = (payload(&t), payload(&w)) {
                    if (t == w) != (x == y) || (w == t) != (x == y) {
                        rep.miss(c(29), || format!("built values {s:?} and {:?}, equal: {}", w.to_string(), t == w));
                    }
                    rep.count("built values compared");
                }
                other[at] ^= 1;
            }
        }
        7 => {
            let b = &input[1..];
            let mut p = Page::default();
            p.hex(b);
            printed(rep, "slice", &b, p);
        }
        _ => again(rep, &input[1..]),
    }
    true
}
