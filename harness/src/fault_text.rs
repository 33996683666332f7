//! What the text of an error may say about an input. The exact text is only judged when it is
//! one of the messages known here: another wording is counted, not judged.

use crate::der_eval::{oid_text, type_id};
use crate::der_ref::{self, Kind, Why};
use std::collections::HashSet;

const EOS: &str = "Consumed all input before parsing required fields";
const DER_FORMS: [&str; 15] = [
    "Bad boolean length: ",
    "Bad boolean value: ",
    "zero length integer",
    "NULL type w/ non-empty contents",
    "Unsupported id: ",
    "Encountered indefinite length encoding",
    "Length byte count of 127 is reserved",
    "Length byte count of ",
    "Value ",
    "Bad OID length",
    "Bad UTF8 encoding: ",
    "Bad UTC time string",
    "Bit string w/ unused bits outside range",
    "Consumed all input before parsing required fields",
    // schema errors, which a walk never has
    "Expected ",
];

pub fn known_der(text: &str) -> bool {
    DER_FORMS.iter().any(|f| text.starts_with(f))
}

fn ident(id: u8) -> String {
    let class = ["Universal", "Application", "ContextSpecific", "Private"][(id >> 6) as usize];
    let pc = if id & 0x20 != 0 { "Constructed" } else { "Primitive" };
    format!("Unsupported id: Identifier {{ class: {class}, pc: {pc}, tag: {} }}", id & 0x1F)
}

/// contents that the type does not allow: the texts that describe it
pub fn content(k: Kind, b: &[u8]) -> Vec<String> {
    match k {
        Kind::Bool if b.len() == 1 => vec![format!("Bad boolean value: {}", b[0])],
        Kind::Bool => vec![format!("Bad boolean length: {}", b.len())],
        Kind::Int => vec!["zero length integer".into()],
        Kind::Null => vec![format!("NULL type w/ non-empty contents (length == {})", b.len())],
        Kind::Utf8 | Kind::Printable | Kind::Ia5 => match std::str::from_utf8(b) {
            Err(e) => vec![format!("Bad UTF8 encoding: {e}")],
            Ok(_) => vec![],
        },
        Kind::Utc | Kind::Gen => vec!["Bad UTC time string".into()],
        Kind::Bits => match b.first() {
            None => vec![EOS.into()],
            Some(u) => vec![format!("Bit string w/ unused bits outside range [0..7]: {u}")],
        },
        Kind::Oid => {
            let mut v = vec![];
            if b.last().map_or(true, |x| x & 0x80 != 0) {
                v.push(EOS.to_string());
            }
            // padded or too long a subidentifier
            let mut run = 0;
            let mut bad = false;
            for x in b {
                bad |= (run == 0 && *x == 0x80) || run >= 4;
                run = if x & 0x80 != 0 { run + 1 } else { 0 };
            }
            if bad || run >= 4 {
                v.push("Bad OID length".into());
            }
            v
        }
        _ => vec![],
    }
}

/// the texts that describe the fault of the element at the front of `b`, the rest of the
/// element that encloses it
pub fn expected(b: &[u8], why: Why) -> Vec<String> {
    match why {
        Why::Ident => vec![ident(b[0])],
        Why::Truncated => vec![EOS.into()],
        Why::Length => {
            let first = b[1];
            let n = (first & 0x7F) as usize;
            vec![match n {
                0 => "Encountered indefinite length encoding. Not allowed in DER.".into(),
                127 => "Length byte count of 127 is reserved".into(),
                5..=126 => format!("Length byte count of {n} not supported"),
                _ => {
                    let v = b[2..2 + n].iter().fold(0u64, |v, o| v << 8 | *o as u64);
                    format!("Value {v} encoded using {n} bytes")
                }
            }]
        }
        Why::Content(k) => {
            let (n, len) = der_ref::length(&b[1..]).unwrap_or((1, 0));
            content(k, &b[1 + n..1 + n + len as usize])
        }
    }
}

/// everything in an input that an error could be about, at any level
#[derive(Default)]
pub struct Present {
    kinds: HashSet<String>,
    faults: HashSet<String>,
    oids: HashSet<String>,
    tags: HashSet<u8>,
    ints: HashSet<usize>,
    values: HashSet<i128>,
}

impl Present {
    pub fn of(input: &[u8]) -> Present {
        let mut p = Present::default();
        p.level(input, 12);
        p
    }
    fn one(&mut self, k: Kind, b: &[u8]) {
        match der_ref::content(k, b) {
            None => self.faults.extend(content(k, b)),
            Some((der_ref::Val::Oid(a), lenient)) => {
                self.oids.insert(oid_text(&a));
                if lenient {
                    self.faults.insert("Bad OID length".into());
                }
            }
            Some(_) if k == Kind::Int => {
                self.ints.insert(b.len());
                self.values.extend(der_ref::int_value(b));
            }
            Some(_) => {}
        }
    }
    fn level(&mut self, b: &[u8], depth: usize) {
        let mut pos = 0;
        while pos < b.len() {
            let rest = &b[pos..];
            let Some((k, tag)) = der_ref::identify(rest[0]) else {
                self.faults.insert(ident(rest[0]));
                return;
            };
            self.kinds.insert(format!("{:?}", type_id(k)));
            let (n, len) = match der_ref::length(&rest[1..]) {
                Ok(x) => x,
                Err(w) => {
                    self.faults.extend(expected(rest, w));
                    return;
                }
            };
            if len > (rest.len() - 1 - n) as u64 {
                return;
            }
            let c = &rest[1 + n..1 + n + len as usize];
            self.one(k, c);
            if k == Kind::Ctx {
                self.tags.insert(tag);
                // implicitly tagged contents
                for k in [Kind::Ia5, Kind::Oid, Kind::Bits, Kind::Int, Kind::Bool] {
                    self.one(k, c);
                }
            }
            if depth > 0 && matches!(k, Kind::Seq | Kind::Set | Kind::Ctx | Kind::Octets) {
                self.level(c, depth - 1);
            }
            pos += 1 + n + len as usize;
        }
    }

    /// Some(what is wrong) if the text states something that is not so
    pub fn refutes(&self, text: &str) -> Option<String> {
        if text.starts_with(EOS) {
            return None;
        }
        let number = |s: &str| s.trim_end_matches('.').parse::<i128>().ok();
        if let Some(x) = text.strip_prefix("Expected end of stream but type is ") {
            return (!self.kinds.contains(x)).then(|| format!("no {x} in the input"));
        }
        if let Some(x) = text.strip_prefix("Expected ") {
            let (want, got) = x.split_once(", but type is ")?;
            if want == got {
                return Some("expected what it found".into());
            }
            return (!self.kinds.contains(got)).then(|| format!("no {got} in the input"));
        }
        if let Some(x) = text.strip_prefix("The integer length exceeds the representation of i32: ") {
            let n = number(x)?;
            return (!self.ints.contains(&(n as usize))).then(|| format!("no integer of {n} octets in the input"));
        }
        if let Some(x) = text.strip_prefix("The enum 'version' has not mapping for value ") {
            let v = number(x)?;
            return (!self.values.contains(&v) || (0..=2).contains(&v)).then(|| format!("no integer {v}, or a version"));
        }
        if let Some(x) = text.strip_prefix("The Object Identifier '").and_then(|x| x.strip_suffix("' was unexpected.")) {
            return (!self.oids.contains(x)).then(|| format!("no object identifier {x} in the input"));
        }
        if let Some(x) = text.strip_prefix("The explicit tag '").and_then(|x| x.strip_suffix("' was unexpected.")) {
            let t = number(x)?;
            return (!self.tags.contains(&(t as u8))).then(|| format!("no tag {t} in the input"));
        }
        if known_der(text) {
            let ok = self.faults.iter().any(|f| same(text, f));
            return (!ok).then(|| "no such fault in the input".into());
        }
        None
    }
}

/// a trailing parenthesis or period is not judged
pub fn same(text: &str, want: &str) -> bool {
    let cut = |s: &str| s.trim_end_matches([')', '.', ' ']).to_string();
    cut(text) == cut(want)
}
