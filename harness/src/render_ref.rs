//! Reference rendering of a certificate: lines with a nesting depth, from the reference values.

use crate::der_eval::{hex_text, int_text, oid_text};
use crate::der_ref::{self, Kind, Val};
use crate::x509_ref::{self as xr, Alg, BitsV, Cert, Content, Ext, Span};

#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub depth: usize,
    pub text: Vec<u8>,
}

#[derive(Default)]
pub struct Out {
    pub lines: Vec<Line>,
    d: usize,
}

impl Out {
    fn line(&mut self, s: &str) {
        self.lines.push(Line { depth: self.d, text: s.as_bytes().to_vec() });
    }
    fn under(&mut self, label: &str, f: impl FnOnce(&mut Out)) {
        self.line(label);
        self.d += 1;
        f(self);
        self.d -= 1;
    }
    fn text(&mut self, label: &str, value: &[u8]) {
        let mut t = label.as_bytes().to_vec();
        t.extend_from_slice(value);
        self.lines.push(Line { depth: self.d, text: t });
    }
    fn hex(&mut self, b: &[u8]) {
        for ch in b.chunks(16) {
            self.line(&hex_text(ch));
        }
    }
    fn alg(&mut self, label: &str, a: &Alg) {
        self.under(label, |o| o.line(&format!("algorithm: {}", oid_text(&a.arcs))));
    }
    fn bits(&mut self, label: &str, input: &[u8], b: &BitsV) {
        self.under(label, |o| {
            if b.unused == 0 {
                o.hex(b.oct.of(input))
            }
        });
    }
    fn name(&mut self, label: &str, input: &[u8], s: Span, decoded: bool) {
        match (xr::name(input, s), decoded) {
            (Ok(n), true) => self.under(&format!("{label}:"), |o| {
                for (i, l) in ["C: ", "ST: ", "L: ", "O: ", "OU: ", "CN: "].iter().enumerate() {
                    if let Some(v) = n.comp[i] {
                        o.text(l, v.of(input));
                    }
                }
            }),
            _ => self.under(&format!("{label} (raw):"), |o| o.hex(s.of(input))),
        }
    }
    pub fn ext(&mut self, input: &[u8], e: &Ext) {
        let name = match &e.content {
            Content::Ski(_) => "Subject Key Identifier",
            Content::Ku(_) => "Key Usage",
            Content::San(_) => "Subject Alternative Name",
            Content::Bc { .. } => "Basic Constraints",
            Content::Eku(_) => "Extended Key Usage",
            Content::Modbus(_) => "Modbus Role",
            Content::Unknown(_) => "Unknown",
        };
        self.under(name, |o| {
            o.line(&format!("extension id: {}", oid_text(&e.arcs)));
            o.line(&format!("critical: {}", e.critical));
            match &e.content {
                Content::Ski(s) => o.under("key identifier:", |o| o.hex(s.of(input))),
                Content::Ku(f) => o.under("usages:", |o| {
                    for (b, t) in f.iter().zip(USAGES) {
                        if *b {
                            o.line(t);
                        }
                    }
                }),
                Content::San(names) => o.under("names:", |o| {
                    for (k, s, a) in names {
                        let v = s.of(input);
                        match k {
                            1 => o.text("RFC822 Name: ", v),
                            2 => o.text("DNS Name: ", v),
                            6 => o.text("Uniform Resource Identifier: ", v),
                            7 => o.under("IP Address:", |o| o.hex(v)),
                            _ => o.text("Registered ID: ", oid_text(a).as_bytes()),
                        }
                    }
                }),
                Content::Bc { ca, len } => {
                    o.line(&format!("CA: {ca}"));
                    if let Some(l) = len {
                        o.line(&format!("Path Length Contraint: {l}"));
                    }
                }
                Content::Eku(p) => o.under("usages:", |o| {
                    for i in p {
                        o.line(PURPOSES[*i]);
                    }
                }),
                Content::Modbus(s) => o.text("role: ", s.of(input)),
                Content::Unknown(s) => o.under("raw content:", |o| o.hex(s.of(input))),
            }
        });
    }
}

pub const USAGES: [&str; 9] = [
    "digital signature",
    "content commitment",
    "key encipherment",
    "data encipherment",
    "key agreement",
    "key cert sign",
    "crl sign",
    "encipher only",
    "decipher only",
];
pub const PURPOSES: [&str; 6] = ["ServerAuth", "ClientAuth", "CodeSigning", "EmailProtection", "TimeStamping", "OCSPSigning"];

/// what the library decided where it is free to (names and extension list decodable or not)
pub struct Decided {
    pub issuer: bool,
    pub subject: bool,
    /// the text of the error, if the extension list did not decode
    pub exts: Result<(), String>,
    /// the text of a serial number in a tolerated padded encoding
    pub serial: Option<String>,
}

pub fn cert(input: &[u8], c: &Cert, d: &Decided) -> Vec<Line> {
    let mut o = Out::default();
    o.under("tbs certificate:", |o| {
        o.line(&format!("version: V{}", c.version + 1));
        o.line(&format!("serial number: {}", d.serial.clone().unwrap_or_else(|| int_text(c.serial.of(input)))));
        o.alg("signature:", &c.sig);
        o.name("issuer", input, c.issuer, d.issuer);
        o.under("validity:", |o| {
            o.line(&format!("not before: {}", c.not_before));
            o.line(&format!("not after: {}", c.not_after));
        });
        o.name("subject", input, c.subject, d.subject);
        o.under("subject public key info:", |o| {
            o.alg("algorithm:", &c.key_alg);
            o.bits("subject public key:", input, &c.key);
        });
        if let Some(u) = &c.issuer_uid {
            o.bits("issuer unique ID:", input, u);
        }
        if let Some(u) = &c.subject_uid {
            o.bits("subject unique ID:", input, u);
        }
        if let Some(s) = c.exts {
            match (&d.exts, xr::ext_list(input, s)) {
                (Ok(()), Ok(l)) => {
                    if !l.exts.is_empty() {
                        o.under("Extensions", |o| {
                            for e in &l.exts {
                                o.ext(input, e);
                            }
                        });
                    }
                }
                (Err(e), _) => o.line(&format!("**Error** parsing extensions: {e}")),
                _ => {}
            }
        }
    });
    o.alg("signature algorithm:", &c.outer);
    o.bits("signature value:", input, &c.signature);
    o.lines
}

/// index of the enclosing line of every line (the nearest preceding one that is less deep)
pub fn parents(l: &[Line]) -> Vec<Option<usize>> {
    let mut stack: Vec<usize> = Vec::new();
    let mut out = Vec::with_capacity(l.len());
    for (i, x) in l.iter().enumerate() {
        while stack.last().is_some_and(|p| l[*p].depth >= x.depth) {
            stack.pop();
        }
        out.push(stack.last().copied());
        stack.push(i);
    }
    out
}

/// the DER mode of the command-line tool: element lines as (depth, text)
pub fn der_lines(input: &[u8]) -> (Vec<Line>, bool) {
    let mut lines = Vec::new();
    let mut d = 0;
    for i in der_ref::walk(input) {
        match i {
            der_ref::Item::Begin => d += 1,
            der_ref::Item::End => d -= 1,
            der_ref::Item::Fault { .. } => return (lines, false),
            der_ref::Item::Elem(e) => {
                let body = &input[e.coff..e.end()];
                let text: Vec<u8> = match (&e.kind, &e.val) {
                    (_, Val::Bool(b)) => format!("Boolean: {b}").into_bytes(),
                    (_, Val::Oid(a)) => format!("ObjectIdentifier: {}", oid_text(a)).into_bytes(),
                    (Kind::Utc, Val::Time(t)) => format!("UTCTime: {t}").into_bytes(),
                    (_, Val::Time(t)) => format!("GeneratlizedTime: {t}").into_bytes(),
                    (Kind::Int, _) => format!("Integer: {}", int_text(body)).into_bytes(),
                    (Kind::Utf8, _) => [b"UTF8String: ", body].concat(),
                    (Kind::Printable, _) => [b"PrintableString: ", body].concat(),
                    (Kind::Ia5, _) => [b"IA5String: ", body].concat(),
                    (Kind::Ctx, _) => format!("[{}]", e.tag).into_bytes(),
                    (k, _) => crate::der_eval::label(*k).as_bytes().to_vec(),
                };
                lines.push(Line { depth: d, text });
                if let Val::Bits { unused: 0 } = e.val {
                    for ch in body[1..].chunks(16) {
                        lines.push(Line { depth: d + 1, text: hex_text(ch).into_bytes() });
                    }
                }
            }
        }
    }
    (lines, true)
}

/// lines as the console shows them: two spaces per level
pub fn console(lines: &[Line]) -> Vec<u8> {
    let mut v = Vec::new();
    for l in lines {
        v.extend(std::iter::repeat(b' ').take(2 * l.depth));
        v.extend_from_slice(&l.text);
        v.push(b'\n');
    }
    v
}
