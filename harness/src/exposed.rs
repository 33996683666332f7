//! What every exposed view must satisfy whether or not the input should have been accepted:
//! it lies inside the input, and a str is UTF-8.

use crate::der_ref;
use crate::rep::{c, Rep};
use rx509::der::{ASNBitString, ASNType};
use rx509::x509::ext::{Extension, GeneralName, SpecificExtension};
use rx509::x509::{Certificate, Name, RelativeDistinguishedName};

pub fn bytes(rep: &mut Rep, input: &[u8], b: &[u8], what: &str) -> bool {
    if b.is_empty() {
        return true;
    }
    let (lo, hi) = (input.as_ptr() as usize, input.as_ptr() as usize + input.len());
    let p = b.as_ptr() as usize;
    rep.count("views located");
    if p < lo || p.checked_add(b.len()).map_or(true, |e| e > hi) {
        let off = p.wrapping_sub(lo) as isize;
        rep.miss(c(3), || format!("{what}: {} octets at offset {off} of an input of {}", b.len(), input.len()));
        return false;
    }
    true
}

pub fn text(rep: &mut Rep, input: &[u8], s: &str, what: &str) {
    if bytes(rep, input, s.as_bytes(), what) && !der_ref::utf8_ok(s.as_bytes()) {
        rep.miss(c(3), || format!("{what}: a str that is not UTF-8"));
    }
}

fn bits(rep: &mut Rep, input: &[u8], b: &ASNBitString, what: &str) {
    if let Some(o) = b.octets() {
        bytes(rep, input, o, what);
    }
}

pub fn asn(rep: &mut Rep, input: &[u8], a: &ASNType) {
    match a {
        ASNType::Sequence(w) => {
            bytes(rep, input, w.value, "sequence");
        }
        ASNType::Set(w) => {
            bytes(rep, input, w.value, "set");
        }
        ASNType::OctetString(w) => {
            bytes(rep, input, w.value, "octet string");
        }
        ASNType::Integer(w) => {
            bytes(rep, input, w.value.bytes, "integer");
        }
        ASNType::ExplicitTag(w) => {
            bytes(rep, input, w.value.contents, "context-specific contents");
        }
        ASNType::PrintableString(w) => text(rep, input, w.value, "PrintableString"),
        ASNType::IA5String(w) => text(rep, input, w.value, "IA5String"),
        ASNType::UTF8String(w) => text(rep, input, w.value, "UTF8String"),
        ASNType::BitString(w) => bits(rep, input, &w.value, "bit string"),
        _ => {}
    }
}

pub fn components(rep: &mut Rep, input: &[u8], n: &RelativeDistinguishedName) {
    for s in [n.country_name, n.state_or_province_unit_name, n.locality_name, n.organization, n.organizational_unit_name, n.common_name]
        .into_iter()
        .flatten()
    {
        text(rep, input, s, "name component");
    }
}

pub fn name(rep: &mut Rep, input: &[u8], n: &Name) {
    bytes(rep, input, n.inner, "name");
    if let Ok(x) = n.parse() {
        components(rep, input, &x);
    }
}

pub fn ext(rep: &mut Rep, input: &[u8], e: &Extension) {
    match &e.content {
        SpecificExtension::SubjectKeyIdentifier(x) => {
            bytes(rep, input, x.key_identifier, "key identifier");
        }
        SpecificExtension::Unknown(b) => {
            bytes(rep, input, b, "raw extension value");
        }
        SpecificExtension::ModbusRole(x) => text(rep, input, x.role.as_ref(), "Modbus role"),
        SpecificExtension::SubjectAlternativeName(x) => {
            for n in &x.names {
                match n {
                    GeneralName::Rfc822Name(t) | GeneralName::DnsName(t) | GeneralName::UniformResourceIdentifier(t) => {
                        text(rep, input, t, "alternative name")
                    }
                    GeneralName::IpAddress(b) => {
                        bytes(rep, input, b, "IP address");
                    }
                    _ => {}
                }
            }
        }
        _ => {}
    }
}

pub fn cert(rep: &mut Rep, input: &[u8], cert: &Certificate) {
    let t = &cert.tbs_certificate.value;
    bytes(rep, input, cert.tbs_certificate.bytes, "tbs bytes");
    bytes(rep, input, t.serial_number.bytes, "serial number");
    for a in [&t.signature, &cert.signature_algorithm, &t.subject_public_key_info.algorithm] {
        if let Some(p) = &a.parameters {
            asn(rep, input, p);
        }
    }
    name(rep, input, &t.issuer);
    name(rep, input, &t.subject);
    bits(rep, input, &t.subject_public_key_info.subject_public_key, "public key");
    bits(rep, input, &cert.signature_value, "signature value");
    for u in [&t.issuer_unique_id, &t.subject_unique_id].into_iter().flatten() {
        bits(rep, input, u, "unique identifier");
    }
    if let Some(x) = &t.extensions {
        if let Ok(l) = x.parse() {
            for e in &l {
                ext(rep, input, e);
            }
        }
    }
}
