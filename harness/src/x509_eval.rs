//! Monitors of certificates, names, extensions and their printed form.

use crate::der_eval::{check_bits, check_int, check_value, kind_of, view};
use crate::der_ref;
use crate::enc;
use crate::exposed;
use crate::fault_text::Present;
use crate::gen;
use crate::render_ref::{self, Decided, Line, PURPOSES};
use crate::rep::{c, hex_short, Rep};
use crate::x509_ref::{self as xr, Alg, BitsV, Content, Ext, Span};
use rx509::der::{ASNBitString, UtcTime};
use rx509::x509::ext::{Extension, ExtendedKeyUsagePurpose, GeneralName, SpecificExtension};
use rx509::x509::printer::{LinePrinter, Printable};
use rx509::x509::{AlgorithmIdentifier, Certificate, Name, RelativeDistinguishedName, Validity, Version};

// ------------------------------------------------------------------ recording printer

#[derive(Default)]
pub struct Rec {
    pub lines: Vec<Line>,
    pub depth: i64,
    cur: Option<Vec<u8>>,
    pub wrong: Option<&'static str>,
    pub calls: u64,
}
impl Rec {
    fn flag(&mut self, w: &'static str) {
        self.wrong.get_or_insert(w);
    }
    fn put(&mut self, s: &str) {
        self.calls += 1;
        if self.cur.is_none() {
            self.flag("text outside of a begun line");
        }
        self.cur.get_or_insert_with(Vec::new).extend_from_slice(s.as_bytes());
    }
    fn end(&mut self) {
        let text = self.cur.take().unwrap_or_default();
        self.lines.push(Line { depth: self.depth.max(0) as usize, text });
    }
    pub fn close(&mut self) {
        if self.depth != 0 {
            self.flag("a type was opened and not closed");
        }
        if self.cur.is_some() {
            self.flag("a line was begun and not ended");
        }
    }
}
impl LinePrinter for Rec {
    fn begin_type(&mut self) {
        self.calls += 1;
        if self.cur.is_some() {
            self.flag("nesting level changed inside a line");
        }
        self.depth += 1;
    }
    fn begin_line(&mut self) {
        self.calls += 1;
        if self.cur.is_some() {
            self.flag("line begun inside a line");
        }
        self.cur = Some(Vec::new());
    }
    fn print_fmt(&mut self, f: &core::fmt::Arguments) {
        self.put(&std::fmt::format(*f))
    }
    fn print_str(&mut self, s: &str) {
        self.put(s)
    }
    fn println_fmt(&mut self, f: &core::fmt::Arguments) {
        self.put(&std::fmt::format(*f));
        self.end()
    }
    fn println_str(&mut self, s: &str) {
        self.put(s);
        self.end()
    }
    fn end_type(&mut self) {
        self.calls += 1;
        if self.cur.is_some() {
            self.flag("nesting level changed inside a line");
        }
        self.depth -= 1;
        if self.depth < 0 {
            self.flag("a type was closed that was not opened");
        }
    }
}

pub fn compare_print(rep: &mut Rep, rec: &mut Rec, want: &[Line]) {
    rec.close();
    if let Some(w) = rec.wrong {
        rep.miss(c(22), || format!("printing: {w}"));
    }
    rep.add("lines printed", rec.lines.len() as u64);
    let got = &rec.lines;
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (got.get(i).map(|l| &l.text), want.get(i).map(|l| &l.text));
        if g != w {
            let show = |x: Option<&Vec<u8>>| x.map(|t| String::from_utf8_lossy(t).into_owned());
            rep.miss(c(22), || format!("printed line {i} is {:?}, expected {:?}", show(g), show(w)));
            return;
        }
    }
    let (gp, wp) = (render_ref::parents(got), render_ref::parents(want));
    if let Some(i) = (0..got.len()).find(|i| gp[*i] != wp[*i]) {
        rep.miss(c(22), || format!("printed line {i} {:?} is nested in the wrong level", String::from_utf8_lossy(&got[i].text)));
    }
}

// ----------------------------------------------------------------------- certificates

fn bits(rep: &mut Rep, input: &[u8], got: &ASNBitString, want: &BitsV, mask: u32, what: &str) {
    if !want.undef {
        check_bits(rep, input, got, want.unused, want.oct.off, want.oct.len, mask, what);
    }
}

fn alg(rep: &mut Rep, input: &[u8], got: &AlgorithmIdentifier, want: &Alg, what: &str) {
    let g = got.algorithm.values();
    if g.len() != want.arcs.len() || g.iter().zip(&want.arcs).any(|(x, y)| *x as u64 != *y) {
        rep.miss(c(13), || format!("{what}: algorithm {:?} instead of {:?}", g, want.arcs));
    }
    match (&got.parameters, &want.params) {
        (None, None) => {}
        (Some(p), Some(e)) if kind_of(p) == e.kind => check_value(rep, input, p, e, c(13)),
        (g, w) => rep.miss(c(13), || format!("{what}: parameters {:?} instead of {:?}", g, w.as_ref().map(|e| e.kind))),
    }
}

/// what an error says must be so
fn told(rep: &mut Rep, input: &[u8], e: &dyn std::fmt::Display) {
    let text = e.to_string();
    rep.count("errors about structures read");
    rep.mix(text.len() as u64 + 700);
    if let Some(w) = Present::of(input).refutes(&text) {
        rep.miss(c(27), || format!("the error says {text:?}: {w}"));
    }
}

pub fn cert(input: &[u8], rep: &mut Rep) -> bool {
    let want = xr::cert(input);
    let got = Certificate::parse(input);
    rep.mix(got.is_ok() as u64 + 2);
    if let (true, Ok(g)) = (rep.wants(c(3)), &got) {
        exposed::cert(rep, input, g);
    }
    if rep.wants(c(27)) {
        match &got {
            Err(e) => told(rep, input, e),
            Ok(g) => {
                if let Some(Err(e)) = g.tbs_certificate.value.extensions.as_ref().map(|x| x.parse()) {
                    told(rep, input, &e);
                }
            }
        }
    }
    let (cert, want) = match (got, want) {
        (Err(e), Ok(w)) => {
            rep.count(if w.lenient { "certificates tolerated, refused" } else { "certificates" });
            rep.nontrivial = true;
            if !w.lenient {
                rep.miss(c(13) | rep.refusal, || format!("well-formed certificate refused: {e}"));
            }
            return false;
        }
        (Err(_), Err(b)) => {
            rep.count("certificates refused");
            rep.mix(b.what.len() as u64 * 31 + b.what.as_bytes().first().copied().unwrap_or(0) as u64);
            rep.nontrivial = input.len() > 2;
            return false;
        }
        (Ok(_), Err(b)) => {
            rep.nontrivial = true;
            rep.miss(b.props, || format!("certificate accepted despite: {}", b.what));
            return true;
        }
        (Ok(g), Ok(w)) => (g, w),
    };
    rep.nontrivial = true;
    rep.count(if want.lenient { "certificates tolerated, accepted" } else { "certificates accepted" });
    let tbs = &cert.tbs_certificate.value;
    let m = c(13);

    view(rep, input, cert.tbs_certificate.bytes, want.tbs.off, want.tbs.len, c(13) | c(15), "tbs bytes");
    if rep.wants(c(15)) {
        let rebuilt = enc::tlv(0x30, cert.tbs_certificate.bytes);
        let off = (want.tbs.off + want.tbs.len).checked_sub(rebuilt.len());
        if off.map_or(true, |o| input[o..o + rebuilt.len()] != rebuilt[..]) {
            rep.miss(c(15), || "header + tbs bytes is not the signed data".into());
        }
    }
    let v = match tbs.version {
        Version::V1 => 0,
        Version::V2 => 1,
        Version::V3 => 2,
    };
    if v != want.version {
        rep.miss(m, || format!("version {:?} for encoded {}", tbs.version, want.version));
    }
    view(rep, input, tbs.serial_number.bytes, want.serial.off, want.serial.len, m | c(15), "serial number");
    check_int(rep, &tbs.serial_number, want.serial.of(input), 0);
    alg(rep, input, &tbs.signature, &want.sig, "signature (tbs)");
    alg(rep, input, &cert.signature_algorithm, &want.outer, "signature algorithm");
    alg(rep, input, &tbs.subject_public_key_info.algorithm, &want.key_alg, "public key algorithm");
    view(rep, input, tbs.issuer.inner, want.issuer.off, want.issuer.len, m, "issuer");
    view(rep, input, tbs.subject.inner, want.subject.off, want.subject.len, m, "subject");
    bits(rep, input, &tbs.subject_public_key_info.subject_public_key, &want.key, m | c(15), "public key");
    bits(rep, input, &cert.signature_value, &want.signature, m | c(15), "signature value");
    for (what, g, w) in [
        ("issuer unique id", &tbs.issuer_unique_id, &want.issuer_uid),
        ("subject unique id", &tbs.subject_unique_id, &want.subject_uid),
    ] {
        match (g, w) {
            (None, None) => {}
            (Some(g), Some(w)) => bits(rep, input, g, w, m, what),
            _ => rep.miss(m, || format!("{what}: {} but {} encoded", if g.is_some() { "present" } else { "absent" }, if w.is_some() { "is" } else { "is not" })),
        }
    }
    validity(rep, &tbs.validity, want.not_before, want.not_after);

    let issuer = name_in(rep, input, want.issuer, &tbs.issuer);
    let subject = name_in(rep, input, want.subject, &tbs.subject);

    let mut exts_ok = Ok(());
    match (&tbs.extensions, want.exts) {
        (None, None) => {}
        (Some(x), Some(s)) => {
            let got = x.parse();
            if rep.wants(c(24)) {
                let again = x.parse();
                if format!("{got:?}") != format!("{again:?}") {
                    rep.miss(c(24), || "parsing the extensions twice differs".into());
                }
            }
            if let Err(e) = &got {
                exts_ok = Err(e.to_string());
            }
            ext_list(rep, input, s, &got);
        }
        (g, w) => rep.miss(m | c(16), || format!("extensions {} but {}", if g.is_some() { "present" } else { "absent" }, if w.is_some() { "encoded" } else { "not encoded" })),
    }

    if rep.wants(c(22) | c(1)) {
        let mut rec = Rec::default();
        cert.print(&mut rec);
        let undef = [&want.issuer_uid, &want.subject_uid].iter().any(|u| u.as_ref().is_some_and(|u| u.undef));
        if !undef {
            let padded = !der_ref::int_minimal(want.serial.of(input));
            let d = Decided { issuer, subject, exts: exts_ok, serial: padded.then(|| tbs.serial_number.to_string()) };
            compare_print(rep, &mut rec, &render_ref::cert(input, &want, &d));
        }
    }
    if rep.wants(c(1)) {
        std::hint::black_box(format!("{cert:?}"));
    }
    true
}

fn validity(rep: &mut Rep, v: &Validity, nb: u64, na: u64) {
    let m = c(13) | c(21) | c(12);
    if v.not_before.value != nb {
        rep.miss(m, || format!("not before is {} instead of {nb}", v.not_before.value));
    }
    if v.not_after.value != na {
        rep.miss(m, || format!("not after is {} instead of {na}", v.not_after.value));
    }
    if !rep.wants(c(21) | c(1)) {
        return;
    }
    let mid = nb / 2 + na / 2;
    for base in [nb, na, mid, 0, u64::MAX] {
        for t in [base.saturating_sub(86400), base.saturating_sub(1), base, base.saturating_add(1), base.saturating_add(86400)] {
            let got = v.is_valid(UtcTime::from_seconds_since_epoch(t));
            if got != (nb <= t && t <= na) {
                rep.miss(c(21), || format!("is_valid({t}) is {got} for [{nb}, {na}]"));
            }
            rep.count("instants checked");
        }
    }
}

fn name_fields<'a>(n: &RelativeDistinguishedName<'a>) -> [Option<&'a str>; 6] {
    [n.country_name, n.state_or_province_unit_name, n.locality_name, n.organization, n.organizational_unit_name, n.common_name]
}

/// compares a parsed name with the reference; true if it decoded
fn name_in(rep: &mut Rep, input: &[u8], s: Span, n: &Name) -> bool {
    let want = xr::name(input, s);
    let got = n.parse();
    rep.mix(got.is_ok() as u64 + 5);
    match (&got, &want) {
        (Err(e), Ok(w)) => {
            if !w.lenient {
                rep.miss(c(20) | rep.refusal, || format!("well-formed name refused: {e}"));
            }
            rep.count("names refused");
        }
        (Err(_), Err(b)) => {
            rep.count("names refused");
            rep.mix(b.what.len() as u64 * 37);
        }
        (Ok(_), Err(b)) => rep.miss(b.props, || format!("name accepted despite: {}", b.what)),
        (Ok(g), Ok(w)) => {
            rep.count("names decoded");
            for (i, (g, w)) in name_fields(g).iter().zip(&w.comp).enumerate() {
                let what = ["country", "state or province", "locality", "organization", "organizational unit", "common name"][i];
                match (g, w) {
                    (None, None) => {}
                    (Some(g), Some(w)) => {
                        view(rep, input, g.as_bytes(), w.off, w.len, c(20), what);
                        rep.count("name components checked");
                    }
                    _ => rep.miss(c(20), || format!("{what} is {g:?} but encoded as {:?}", w.map(|w| w.of(input).to_vec()))),
                }
            }
        }
    }
    got.is_ok()
}

pub fn name(input: &[u8], rep: &mut Rep) -> bool {
    rep.nontrivial = !input.is_empty();
    let n = Name { inner: input };
    if rep.wants(c(3)) {
        exposed::name(rep, input, &n);
    }
    if let (true, Err(e)) = (rep.wants(c(27)), &n.parse()) {
        told(rep, input, e);
    }
    let ok = name_in(rep, input, Span { off: 0, len: input.len() }, &n);
    if rep.wants(c(22) | c(1)) {
        let mut rec = Rec::default();
        n.print(&mut rec);
        if let Ok(x) = n.parse() {
            let mut rec = Rec::default();
            x.print(&mut rec);
            rec.close();
            if let Some(w) = rec.wrong {
                rep.miss(c(22), || format!("printing a name: {w}"));
            }
        }
        rec.close();
        if let Some(w) = rec.wrong {
            rep.miss(c(22), || format!("printing a name: {w}"));
        }
    }
    ok
}

// ------------------------------------------------------------------------- extensions

fn own(arcs: &[u64]) -> u32 {
    match gen::EXT_OIDS.iter().position(|x| *x == arcs) {
        Some(1) | Some(3) => c(17),
        Some(0) | Some(4) | Some(5) => c(18),
        Some(2) => c(19),
        _ => 0,
    }
}

fn ext_list<E: std::fmt::Display>(rep: &mut Rep, input: &[u8], s: Span, got: &Result<Vec<Extension>, E>) {
    let want = xr::ext_list(input, s);
    rep.mix(got.is_ok() as u64 + 7);
    match (got, &want) {
        (Err(e), Ok(w)) => {
            rep.count("extension lists refused");
            if !w.lenient {
                let m = w.exts.iter().fold(c(16), |m, e| m | own(&e.arcs));
                rep.miss(m | rep.refusal, || format!("well-formed extension list refused: {e}"));
            }
        }
        (Err(_), Err(b)) => {
            rep.count("extension lists refused");
            rep.mix(b.what.len() as u64 * 41);
        }
        (Ok(_), Err(b)) => rep.miss(b.props, || format!("extension list accepted despite: {}", b.what)),
        (Ok(g), Ok(w)) => {
            rep.count("extension lists decoded");
            if g.len() != w.exts.len() {
                rep.miss(c(16), || format!("{} extensions reported for {} encoded", g.len(), w.exts.len()));
                return;
            }
            for ((g, w), s) in g.iter().zip(&w.exts).zip(&w.spans) {
                compare_ext(rep, input, g, w);
                if rep.wants(c(16)) {
                    match Extension::parse(s.of(input)) {
                        Ok(x) => compare_ext(rep, input, &x, w),
                        Err(e) => rep.miss(c(16), || format!("extension decoded in the list but not alone: {e}")),
                    }
                }
            }
        }
    }
}

fn compare_ext(rep: &mut Rep, input: &[u8], g: &Extension, w: &Ext) {
    let m = c(16) | own(&w.arcs);
    let ga = g.extn_id.values();
    if ga.len() != w.arcs.len() || ga.iter().zip(&w.arcs).any(|(x, y)| *x as u64 != *y) {
        rep.miss(c(16), || format!("extension identifier {:?} instead of {:?}", ga, w.arcs));
    }
    if g.critical != w.critical {
        rep.miss(c(16), || format!("extension {:?} critical is {}", w.arcs, g.critical));
    }
    match (&g.content, &w.content) {
        (SpecificExtension::SubjectKeyIdentifier(x), Content::Ski(s)) => {
            rep.count("ext.SubjectKeyIdentifier");
            view(rep, input, x.key_identifier, s.off, s.len, m, "key identifier")
        }
        (SpecificExtension::KeyUsage(k), Content::Ku(f)) => {
            rep.count("ext.KeyUsage");
            let g = [
                k.digital_signature,
                k.content_commitment,
                k.key_encipherment,
                k.data_encipherment,
                k.key_agreement,
                k.key_cert_sign,
                k.crl_sign,
                k.encipher_only,
                k.decipher_only,
            ];
            if g != *f {
                rep.miss(m, || format!("key usage {:?} instead of {:?}", g, f));
            }
        }
        (SpecificExtension::SubjectAlternativeName(x), Content::San(names)) => {
            rep.count("ext.SubjectAlternativeName");
            if x.names.len() != names.len() {
                rep.miss(m, || format!("{} alternative names for {} encoded", x.names.len(), names.len()));
            }
            for (g, (tag, s, arcs)) in x.names.iter().zip(names) {
                rep.count("alternative names checked");
                match (g, tag) {
                    (GeneralName::Rfc822Name(t), 1) | (GeneralName::DnsName(t), 2) | (GeneralName::UniformResourceIdentifier(t), 6) => {
                        view(rep, input, t.as_bytes(), s.off, s.len, m, "alternative name")
                    }
                    (GeneralName::IpAddress(b), 7) => view(rep, input, b, s.off, s.len, m, "IP address"),
                    (GeneralName::RegisteredId(o), 8) => {
                        if o.values().iter().map(|x| *x as u64).ne(arcs.iter().copied()) {
                            rep.miss(m, || format!("registered identifier {:?} instead of {:?}", o.values(), arcs));
                        }
                    }
                    _ => rep.miss(m, || format!("alternative name [{tag}] {} reported as {g:?}", hex_short(s.of(input)))),
                }
            }
        }
        (SpecificExtension::BasicConstraints(b), Content::Bc { ca, len }) => {
            rep.count("ext.BasicConstraints");
            if b.ca != *ca || b.path_length_constraint != *len {
                rep.miss(m, || format!("basic constraints {:?} instead of CA {ca}, path length {len:?}", b));
            }
        }
        (SpecificExtension::ExtendedKeyUsage(x), Content::Eku(p)) => {
            rep.count("ext.ExtendedKeyUsage");
            let g: Vec<usize> = x.ext_key_usages.iter().map(purpose).collect();
            if g != *p {
                rep.miss(m, || format!("key purposes {:?} instead of {:?}", x.ext_key_usages, p.iter().map(|i| PURPOSES[*i]).collect::<Vec<_>>()));
            }
        }
        (SpecificExtension::ModbusRole(x), Content::Modbus(s)) => {
            rep.count("ext.ModbusRole");
            view(rep, input, x.role.as_bytes(), s.off, s.len, m, "Modbus role")
        }
        (SpecificExtension::Unknown(b), Content::Unknown(s)) => {
            rep.count("ext.Unknown");
            view(rep, input, b, s.off, s.len, m, "raw extension value")
        }
        (g, _) => rep.miss(m, || format!("extension {:?} decoded as {}", w.arcs, g.name())),
    }
}

fn purpose(p: &ExtendedKeyUsagePurpose) -> usize {
    match p {
        ExtendedKeyUsagePurpose::ServerAuth => 0,
        ExtendedKeyUsagePurpose::ClientAuth => 1,
        ExtendedKeyUsagePurpose::CodeSigning => 2,
        ExtendedKeyUsagePurpose::EmailProtection => 3,
        ExtendedKeyUsagePurpose::TimeStamping => 4,
        ExtendedKeyUsagePurpose::OCSPSigning => 5,
    }
}

/// one extension: the contents octets of its SEQUENCE
pub fn ext(input: &[u8], rep: &mut Rep) -> bool {
    rep.nontrivial = input.len() > 2;
    let want = xr::ext(input, Span { off: 0, len: input.len() });
    let got = Extension::parse(input);
    rep.mix(got.is_ok() as u64 + 11);
    if let (true, Ok(g)) = (rep.wants(c(3)), &got) {
        exposed::ext(rep, input, g);
    }
    if let (true, Err(e)) = (rep.wants(c(27)), &got) {
        told(rep, input, e);
    }
    match (&got, &want) {
        (Err(e), Ok(w)) => {
            rep.count("extensions refused");
            if !w.lenient {
                rep.miss(c(16) | own(&w.arcs) | rep.refusal, || format!("well-formed extension {:?} refused: {e}", w.arcs));
            }
        }
        (Err(_), Err(b)) => {
            rep.count("extensions refused");
            rep.mix(b.what.len() as u64 * 43 + b.props as u64);
        }
        (Ok(_), Err(b)) => rep.miss(b.props, || format!("extension accepted despite: {}", b.what)),
        (Ok(g), Ok(w)) => {
            rep.count(if w.lenient { "extensions tolerated, accepted" } else { "extensions accepted" });
            compare_ext(rep, input, g, w);
            if rep.wants(c(22) | c(1)) {
                let mut rec = Rec::default();
                g.print(&mut rec);
                let mut o = render_ref::Out::default();
                o.ext(input, w);
                compare_print(rep, &mut rec, &o.lines);
                std::hint::black_box(format!("{g:?}"));
            }
        }
    }
    got.is_ok()
}
