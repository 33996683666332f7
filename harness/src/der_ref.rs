//! Reference DER decoder, written from X.690 (sections 8 and 10-11), independent of rx509.
//! Three-valued: a clean item must be accepted as described; a `lenient` item deviates from
//! DER in a way decoders commonly tolerate (either outcome is fine, the value is not free);
//! a fault must be refused.

use crate::cal;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Bool,
    Int,
    Bits,
    Octets,
    Null,
    Oid,
    Utf8,
    Printable,
    Ia5,
    Utc,
    Gen,
    Seq,
    Set,
    Ctx,
}

pub const KINDS: [Kind; 14] = [
    Kind::Bool,
    Kind::Int,
    Kind::Bits,
    Kind::Octets,
    Kind::Null,
    Kind::Oid,
    Kind::Utf8,
    Kind::Printable,
    Kind::Ia5,
    Kind::Utc,
    Kind::Gen,
    Kind::Seq,
    Kind::Set,
    Kind::Ctx,
];

impl Kind {
    pub fn id_octet(self) -> u8 {
        match self {
            Kind::Bool => 0x01,
            Kind::Int => 0x02,
            Kind::Bits => 0x03,
            Kind::Octets => 0x04,
            Kind::Null => 0x05,
            Kind::Oid => 0x06,
            Kind::Utf8 => 0x0C,
            Kind::Printable => 0x13,
            Kind::Ia5 => 0x16,
            Kind::Utc => 0x17,
            Kind::Gen => 0x18,
            Kind::Seq => 0x30,
            Kind::Set => 0x31,
            Kind::Ctx => 0xA0,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    /// identifier octet not supported
    Ident,
    /// form or size of the length encoding
    Length,
    /// input ends inside the header or the contents
    Truncated,
    /// contents not allowed for the type
    Content(Kind),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val {
    None,
    Bool(bool),
    Bits { unused: u8 },
    Oid(Vec<u64>),
    Time(u64),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Elem {
    pub kind: Kind,
    /// tag number of a context-specific element
    pub tag: u8,
    pub constructed: bool,
    /// offset of the identifier octet
    pub start: usize,
    /// offset and size of the contents
    pub coff: usize,
    pub clen: usize,
    pub val: Val,
    pub lenient: bool,
}

impl Elem {
    pub fn end(&self) -> usize {
        self.coff + self.clen
    }
    pub fn is_container(&self) -> bool {
        matches!(self.kind, Kind::Seq | Kind::Set) || (self.kind == Kind::Ctx && self.constructed)
    }
}

/// supported identifier octets
pub fn identify(id: u8) -> Option<(Kind, u8)> {
    let class = id >> 6;
    let constructed = id & 0x20 != 0;
    let num = id & 0x1F;
    match class {
        0 => {
            for k in KINDS {
                if k != Kind::Ctx && k.id_octet() == id {
                    return Some((k, num));
                }
            }
            let _ = constructed;
            None
        }
        2 if num != 31 => Some((Kind::Ctx, num)),
        _ => None,
    }
}

/// length octets at the front of `b`: (octets used, value)
pub fn length(b: &[u8]) -> Result<(usize, u64), Why> {
    let first = *b.first().ok_or(Why::Truncated)?;
    if first < 0x80 {
        return Ok((1, first as u64));
    }
    let n = (first & 0x7F) as usize;
    if n == 0 || n > 4 {
        return Err(Why::Length);
    }
    let oct = b.get(1..1 + n).ok_or(Why::Truncated)?;
    let v = oct.iter().fold(0u64, |v, o| v << 8 | *o as u64);
    // fewest octets: no leading zero, and not representable in the short form
    if oct[0] == 0 || v < 128 {
        return Err(Why::Length);
    }
    Ok((1 + n, v))
}

pub fn utf8_ok(b: &[u8]) -> bool {
    // RFC 3629 table
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0x00..=0x7F => (0, 0, 0),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE | 0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return false,
        };
        for k in 1..=n {
            match b.get(i + k) {
                Some(x) if k == 1 && (lo..=hi).contains(x) => {}
                Some(x) if k > 1 && (0x80..=0xBF).contains(x) => {}
                _ => return false,
            }
        }
        i += 1 + n;
    }
    true
}

/// (arcs, lenient); None if it must be refused
pub fn oid(c: &[u8]) -> Option<(Vec<u64>, bool)> {
    if c.is_empty() {
        return None;
    }
    let mut subs: Vec<u128> = Vec::new();
    let mut cur: Option<u128> = None;
    for b in c {
        if cur.is_none() && *b == 0x80 {
            return None; // padded
        }
        let v = cur.unwrap_or(0).saturating_mul(128).saturating_add((*b & 0x7F) as u128);
        if b & 0x80 != 0 {
            cur = Some(v);
        } else {
            subs.push(v);
            cur = None;
        }
    }
    if cur.is_some() {
        return None; // ends inside a subidentifier
    }
    let mut lenient = false;
    let mut arcs: Vec<u64> = Vec::new();
    for (i, s) in subs.iter().enumerate() {
        if *s >= 1 << 28 {
            lenient = true; // may be refused; may be decoded only if exact
        }
        let own = if i == 0 {
            let a = if *s < 40 {
                0
            } else if *s < 80 {
                1
            } else {
                2
            };
            arcs.push(a as u64);
            *s - 40 * a
        } else {
            *s
        };
        if own > u32::MAX as u128 {
            return None; // not representable in the API: must not be accepted
        }
        arcs.push(own as u64);
    }
    Some((arcs, lenient))
}

pub fn int_minimal(c: &[u8]) -> bool {
    !(c.len() > 1 && ((c[0] == 0 && c[1] < 0x80) || (c[0] == 0xFF && c[1] >= 0x80)))
}

/// two's complement value, for up to 15 octets
pub fn int_value(c: &[u8]) -> Option<i128> {
    if c.is_empty() || c.len() > 15 {
        return None;
    }
    let raw = c.iter().fold(0i128, |v, b| v * 256 + *b as i128);
    Some(if c[0] >= 0x80 { raw - (1i128 << (8 * c.len())) } else { raw })
}

fn printable(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(&b)
}

/// contents rules: (value, lenient)
pub fn content(kind: Kind, c: &[u8]) -> Option<(Val, bool)> {
    match kind {
        Kind::Bool => match c {
            [0x00] => Some((Val::Bool(false), false)),
            [0xFF] => Some((Val::Bool(true), false)),
            _ => None,
        },
        Kind::Null => (c.is_empty()).then_some((Val::None, false)),
        Kind::Int => (!c.is_empty()).then(|| (Val::None, !int_minimal(c))),
        Kind::Bits => {
            let unused = *c.first()?;
            if unused > 7 || (unused > 0 && c.len() == 1) {
                return None;
            }
            let padding = unused > 0 && c[c.len() - 1] & ((1u8 << unused) - 1) != 0;
            Some((Val::Bits { unused }, padding))
        }
        Kind::Oid => oid(c).map(|(a, l)| (Val::Oid(a), l)),
        Kind::Utf8 => utf8_ok(c).then_some((Val::None, false)),
        Kind::Printable => utf8_ok(c).then(|| (Val::None, !c.iter().all(|b| printable(*b)))),
        Kind::Ia5 => utf8_ok(c).then(|| (Val::None, c.iter().any(|b| *b >= 0x80))),
        Kind::Utc => cal::decode(c, false).map(|t| (Val::Time(t), false)),
        Kind::Gen => cal::decode(c, true).map(|t| (Val::Time(t), false)),
        Kind::Octets | Kind::Seq | Kind::Set | Kind::Ctx => Some((Val::None, false)),
    }
}

/// the element at `pos`, inside an enclosing element that ends at `end` (pos < end)
pub fn element(input: &[u8], pos: usize, end: usize) -> Result<Elem, Why> {
    let b = &input[pos..end];
    let (kind, tag) = identify(b[0]).ok_or(Why::Ident)?;
    let (n, len) = length(&b[1..])?;
    if len > (b.len() - 1 - n) as u64 {
        return Err(Why::Truncated);
    }
    let coff = pos + 1 + n;
    let clen = len as usize;
    let (val, lenient) = content(kind, &input[coff..coff + clen]).ok_or(Why::Content(kind))?;
    Ok(Elem { kind, tag, constructed: b[0] & 0x20 != 0, start: pos, coff, clen, val, lenient })
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Item {
    Elem(Elem),
    Begin,
    End,
    Fault { why: Why, at: usize, end: usize },
}

/// The reference walk: everything the handler must be told, ending in a fault if there is one.
pub fn walk(input: &[u8]) -> Vec<Item> {
    let mut items = Vec::new();
    let mut ends = vec![input.len()];
    let mut pos = 0;
    loop {
        let end = *ends.last().unwrap();
        if pos == end {
            ends.pop();
            if ends.is_empty() {
                return items;
            }
            items.push(Item::End);
            continue;
        }
        match element(input, pos, end) {
            Err(why) => {
                items.push(Item::Fault { why, at: pos, end });
                return items;
            }
            Ok(e) => {
                let container = e.is_container();
                pos = if container { e.coff } else { e.end() };
                let inner_end = e.end();
                items.push(Item::Elem(e));
                if container {
                    items.push(Item::Begin);
                    ends.push(inner_end);
                }
            }
        }
    }
}
