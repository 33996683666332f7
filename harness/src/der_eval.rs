//! Monitor of the DER walk: an online checker fed by the handler callbacks.

use crate::cal;
use crate::der_ref::{self, Elem, Item, Kind, Val, Why};
use crate::enc;
use crate::fault_text;
use crate::rep::{c, hex_short, Rep};
use rx509::der::{parse_all, ASNBitString, ASNError, ASNType, ASNTypeId, ParseHandler};

pub fn kind_props(k: Kind) -> u32 {
    match k {
        Kind::Bool | Kind::Null | Kind::Octets | Kind::Utf8 | Kind::Printable | Kind::Ia5 => c(8),
        Kind::Int => c(8) | c(9),
        Kind::Bits => c(10),
        Kind::Oid => c(11),
        Kind::Utc | Kind::Gen => c(12),
        Kind::Seq | Kind::Set | Kind::Ctx => 0,
    }
}
pub fn why_props(w: Why) -> u32 {
    match w {
        Why::Ident => c(7),
        Why::Length => c(6),
        Why::Truncated => c(6),
        Why::Content(Kind::Int) => c(8),
        Why::Content(k) => kind_props(k),
    }
}
pub fn why_name(w: Why) -> &'static str {
    match w {
        Why::Ident => "fault.identifier",
        Why::Length => "fault.length",
        Why::Truncated => "fault.truncated",
        Why::Content(k) => match k {
            Kind::Bool => "fault.boolean",
            Kind::Int => "fault.integer",
            Kind::Bits => "fault.bitstring",
            Kind::Null => "fault.null",
            Kind::Oid => "fault.oid",
            Kind::Utf8 | Kind::Printable | Kind::Ia5 => "fault.string",
            Kind::Utc | Kind::Gen => "fault.time",
            _ => "fault.other",
        },
    }
}
pub fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Bool => "elem.Boolean",
        Kind::Int => "elem.Integer",
        Kind::Bits => "elem.BitString",
        Kind::Octets => "elem.OctetString",
        Kind::Null => "elem.Null",
        Kind::Oid => "elem.ObjectIdentifier",
        Kind::Utf8 => "elem.UTF8String",
        Kind::Printable => "elem.PrintableString",
        Kind::Ia5 => "elem.IA5String",
        Kind::Utc => "elem.UTCTime",
        Kind::Gen => "elem.GeneralizedTime",
        Kind::Seq => "elem.Sequence",
        Kind::Set => "elem.Set",
        Kind::Ctx => "elem.ContextSpecific",
    }
}
pub fn kind_of(a: &ASNType) -> Kind {
    match a {
        ASNType::Boolean(_) => Kind::Bool,
        ASNType::Sequence(_) => Kind::Seq,
        ASNType::Set(_) => Kind::Set,
        ASNType::Integer(_) => Kind::Int,
        ASNType::PrintableString(_) => Kind::Printable,
        ASNType::IA5String(_) => Kind::Ia5,
        ASNType::UTF8String(_) => Kind::Utf8,
        ASNType::Null => Kind::Null,
        ASNType::UTCTime(_) => Kind::Utc,
        ASNType::GeneralizedTime(_) => Kind::Gen,
        ASNType::BitString(_) => Kind::Bits,
        ASNType::OctetString(_) => Kind::Octets,
        ASNType::ObjectIdentifier(_) => Kind::Oid,
        ASNType::ExplicitTag(_) => Kind::Ctx,
    }
}
pub fn type_id(k: Kind) -> ASNTypeId {
    match k {
        Kind::Bool => ASNTypeId::Boolean,
        Kind::Int => ASNTypeId::Integer,
        Kind::Bits => ASNTypeId::BitString,
        Kind::Octets => ASNTypeId::OctetString,
        Kind::Null => ASNTypeId::Null,
        Kind::Oid => ASNTypeId::ObjectIdentifier,
        Kind::Utf8 => ASNTypeId::UTF8String,
        Kind::Printable => ASNTypeId::PrintableString,
        Kind::Ia5 => ASNTypeId::IA5String,
        Kind::Utc => ASNTypeId::UTCTime,
        Kind::Gen => ASNTypeId::GeneralizedTime,
        Kind::Seq => ASNTypeId::Sequence,
        Kind::Set => ASNTypeId::Set,
        Kind::Ctx => ASNTypeId::ExplicitTag,
    }
}
pub fn label(k: Kind) -> &'static str {
    match k {
        Kind::Bool => "Boolean",
        Kind::Int => "Integer",
        Kind::Bits => "BitString",
        Kind::Octets => "OctetString",
        Kind::Null => "Null",
        Kind::Oid => "ObjectIdentifier",
        Kind::Utf8 => "UTF8String",
        Kind::Printable => "PrintableString",
        Kind::Ia5 => "IA5String",
        Kind::Utc => "UTCTime",
        Kind::Gen => "GeneralizedTime",
        Kind::Seq => "Sequence",
        Kind::Set => "Set",
        Kind::Ctx => "[",
    }
}

/// own copy of the registered names
pub fn oid_name(a: &[u64]) -> Option<&'static str> {
    Some(match a {
        [1, 2, 840, 113549, 1, 1, 1] => "RSA Encryption",
        [1, 2, 840, 113549, 1, 1, 5] => "SHA1 with RSA Signature",
        [1, 3, 101, 112] => "Ed25519 Signature",
        [2, 5, 4, 3] => "Common Name",
        [2, 5, 4, 6] => "Country Name",
        [2, 5, 4, 7] => "Locality Name",
        [2, 5, 4, 8] => "State or Province Name",
        [2, 5, 4, 10] => "Organization Name",
        [2, 5, 4, 11] => "Organizational Unit Name",
        [1, 2, 840, 113549, 1, 9, 1] => "Email Address",
        _ => return None,
    })
}
pub fn oid_text(a: &[u64]) -> String {
    match oid_name(a) {
        Some(n) => n.to_string(),
        None => a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."),
    }
}
pub fn int_text(b: &[u8]) -> String {
    match (b.len(), der_ref::int_value(b)) {
        (1..=4, Some(v)) => v.to_string(),
        _ => hex_text(b),
    }
}
pub fn hex_text(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02X}", x)).collect::<Vec<_>>().join(":")
}

/// a borrowed view must be exactly input[off..off + len]
pub fn view(rep: &mut Rep, input: &[u8], got: &[u8], off: usize, len: usize, mask: u32, what: &str) {
    let want = &input[off..off + len];
    if std::ptr::eq(got.as_ptr(), want.as_ptr()) && got.len() == len {
        return;
    }
    if got != want {
        rep.miss(mask | c(3), || {
            format!("{what}: got {} but offset {off} holds {}", hex_short(got), hex_short(want))
        });
    } else if len > 0 {
        rep.miss(c(3), || {
            format!("{what}: right octets at the wrong address (offset {off} of the input expected)")
        });
    }
}

/// the bits of a bit string against `unused` and its octets; `mask` are the properties refuted
pub fn check_bits(rep: &mut Rep, input: &[u8], b: &ASNBitString, unused: u8, off: usize, len: usize, mask: u32, what: &str) {
    let size = len * 8 - unused as usize;
    if b.size() != size {
        rep.miss(mask, || format!("{what}: size() is {} for {size} encoded bits", b.size()));
    }
    match b.octets() {
        Some(o) => {
            if unused != 0 {
                rep.miss(mask, || format!("{what}: octets() available with {unused} unused bits"));
            } else {
                view(rep, input, o, off, len, mask, what);
            }
        }
        None => {
            if unused == 0 {
                rep.miss(mask, || format!("{what}: octets() unavailable though every bit is used"));
            }
        }
    }
    let mut n = 0usize;
    let mut bad = None;
    for bit in b.iter().take(8 * len + 64) {
        if n < size && bad.is_none() && bit != (input[off + n / 8] >> (7 - n % 8) & 1 == 1) {
            bad = Some(n);
        }
        n += 1;
    }
    if n != size {
        rep.miss(mask, || format!("{what}: iterator yields {n} bits for {size} encoded ones"));
    } else if let Some(i) = bad {
        rep.miss(mask, || format!("{what}: bit {i} is wrong"));
    } else if rep.wants(c(10)) {
        bit_iterator(rep, b, size, |n| input[off + n / 8] >> (7 - n % 8) & 1 == 1, what);
    }
}

/// the other ways of iterating: they agree with what `next` yields
fn bit_iterator(rep: &mut Rep, b: &ASNBitString, size: usize, bit: impl Fn(usize) -> bool, what: &str) {
    let want = |n: usize| (n < size).then(|| bit(n));
    let starts = [0, 1, 7, 8, 9, size / 2, size.saturating_sub(1), size];
    // all of them for short strings, some of them for each longer one
    let pick = (0..size.min(32)).fold(size, |a, n| a.wrapping_mul(3).wrapping_add(bit(n) as usize)) % 8;
    for (k, p) in starts.into_iter().enumerate() {
        if size > 100 && k != pick && k != (pick + 3) % 8 {
            continue;
        }
        if p > size || p > 4096 || (size > 8192 && p != 9) || size > 1 << 20 {
            continue;
        }
        let at = |rep: &mut Rep| {
            let mut i = b.iter();
            for _ in 0..p {
                i.next();
            }
            let (lo, hi) = i.size_hint();
            if lo > size - p || hi.map_or(false, |h| h < size - p) {
                rep.miss(c(10), || format!("{what}: size_hint {lo}..{hi:?} with {} bits left of {size}", size - p));
            }
            i
        };
        for j in [0, 1, 6, 8, (size - p) / 2, (size - p).saturating_sub(1), size - p, size - p + 1] {
            let mut i = at(rep);
            let got = i.nth(j);
            if got != want(p + j) {
                rep.miss(c(10), || format!("{what}: nth({j}) after {p} bits of {size} is {got:?}"));
            }
            let got = i.next();
            if p + j < size && got != want(p + j + 1) {
                rep.miss(c(10), || format!("{what}: the bit after nth({j}) after {p} bits of {size} is {got:?}"));
            }
        }
        let (n, l) = (at(rep).count(), at(rep).last());
        if n != size - p {
            rep.miss(c(10), || format!("{what}: count() is {n} after {p} bits of {size}"));
        }
        if l != (p < size).then(|| bit(size - 1)) {
            rep.miss(c(10), || format!("{what}: last() is {l:?} after {p} bits of {size}"));
        }
        let step = 2 + k * 3;
        for (n, got) in at(rep).step_by(step).take(4096).enumerate() {
            if Some(got) != want(p + n * step) {
                rep.miss(c(10), || format!("{what}: bit {n} of step_by({step}) after {p} bits of {size} is {got}"));
                break;
            }
        }
        let ones = at(rep).fold(0usize, |a, x| a + x as usize);
        let all = (p..size).filter(|n| bit(*n)).count();
        if ones != all {
            rep.miss(c(10), || format!("{what}: folding finds {ones} bits set instead of {all} after {p} bits of {size}"));
        }
    }
    // two iterators over the same bits don't disturb each other
    let (mut x, mut y) = (b.iter(), b.iter());
    for n in 0..size.min(20) {
        let (a, d) = (x.next(), y.next());
        if a != want(n) || d != want(n) {
            rep.miss(c(10), || format!("{what}: bit {n} is {a:?} and {d:?} for two iterators"));
            break;
        }
    }
}

pub fn check_value(rep: &mut Rep, input: &[u8], asn: &ASNType, e: &Elem, extra: u32) {
    let (off, len) = (e.coff, e.clen);
    let m = kind_props(e.kind) | extra;
    match (asn, &e.val) {
        (ASNType::Boolean(w), Val::Bool(v)) => {
            if w.value != *v {
                rep.miss(m, || format!("boolean {:02x} reported as {}", input[off], w.value));
            }
        }
        (ASNType::Null, _) => {}
        (ASNType::Sequence(w), _) => view(rep, input, w.value, off, len, m, "sequence contents"),
        (ASNType::Set(w), _) => view(rep, input, w.value, off, len, m, "set contents"),
        (ASNType::OctetString(w), _) => view(rep, input, w.value, off, len, m, "octet string"),
        (ASNType::Integer(w), _) => {
            view(rep, input, w.value.bytes, off, len, m, "integer octets");
            if rep.wants(c(9) | c(1) | extra) {
                check_int(rep, &w.value, &input[off..off + len], extra);
            }
        }
        (ASNType::PrintableString(w), _) => string(rep, input, w.value, off, len, m),
        (ASNType::IA5String(w), _) => string(rep, input, w.value, off, len, m),
        (ASNType::UTF8String(w), _) => string(rep, input, w.value, off, len, m),
        (ASNType::UTCTime(t), Val::Time(v)) | (ASNType::GeneralizedTime(t), Val::Time(v)) => {
            if t.value != *v {
                rep.miss(m, || format!("time {} decoded to {} instead of {v}", String::from_utf8_lossy(&input[off..off + len]), t.value));
            }
        }
        (ASNType::BitString(w), Val::Bits { unused }) => check_bits(rep, input, &w.value, *unused, off + 1, len - 1, m, "bit string"),
        (ASNType::ObjectIdentifier(w), Val::Oid(a)) => {
            let got = w.value.values();
            if got.len() != a.len() || got.iter().zip(a).any(|(x, y)| *x as u64 != *y) {
                rep.miss(m, || format!("object identifier {} decoded to {:?} instead of {:?}", hex_short(&input[off..off + len]), got, a));
            } else if rep.wants(c(11) | c(1)) {
                let s = w.value.to_string();
                if s != oid_text(a) {
                    rep.miss(c(11), || format!("object identifier {:?} displays as {s:?}", a));
                }
            }
        }
        (ASNType::ExplicitTag(w), _) => {
            if w.value.value != e.tag {
                rep.miss(m | c(7), || format!("context tag {} reported as {}", e.tag, w.value.value));
            }
            view(rep, input, w.value.contents, off, len, m, "context-specific contents");
        }
        _ => rep.miss(m | c(7), || "element of another kind".into()),
    }
}

fn string(rep: &mut Rep, input: &[u8], s: &str, off: usize, len: usize, m: u32) {
    view(rep, input, s.as_bytes(), off, len, m, "string");
    if !der_ref::utf8_ok(s.as_bytes()) {
        rep.miss(c(3) | c(8), || "a str that is not UTF-8".into());
    }
}

/// 32-bit conversion and text of an integer
pub fn check_int(rep: &mut Rep, i: &rx509::der::ASNInteger, octets: &[u8], extra: u32) {
    let exact = der_ref::int_value(octets);
    let conv = i.as_i32();
    let minimal = der_ref::int_minimal(octets);
    let m = c(9) | extra;
    match conv {
        Some(v) => {
            if octets.len() > 4 && minimal {
                rep.miss(m, || format!("integer of {} octets converted to {v}", octets.len()));
            } else if exact.is_some_and(|x| x != v as i128) {
                rep.miss(m, || format!("integer {} converted to {v} instead of {}", hex_short(octets), exact.unwrap()));
            }
        }
        None => {
            if minimal && octets.len() <= 4 {
                rep.miss(m, || format!("integer {} not converted", hex_short(octets)));
            }
        }
    }
    let text = i.to_string();
    let want = match conv {
        Some(_) if octets.len() > 15 => return,
        Some(_) => exact.unwrap().to_string(),
        None => hex_text(octets),
    };
    if text != want {
        rep.miss(m, || format!("integer {} displays as {text:?} instead of {want:?}", hex_short(octets)));
    }
}

/// type identifier and one-line description (C25)
pub fn check_typed(rep: &mut Rep, input: &[u8], asn: &ASNType, e: &Elem) {
    let k = kind_of(asn);
    if asn.get_id() != type_id(k) {
        rep.miss(c(25), || format!("get_id of a {:?} is {:?}", k, asn.get_id()));
    }
    let text = asn.to_string();
    let body = &input[e.coff..e.end()];
    let value = match &e.val {
        Val::Bool(b) => Some(b.to_string()),
        Val::Oid(a) => Some(oid_text(a)),
        Val::Time(t) => Some(t.to_string()),
        _ => match e.kind {
            Kind::Int => Some(match asn {
                ASNType::Integer(w) => w.value.to_string(),
                _ => int_text(body),
            }),
            Kind::Utf8 | Kind::Printable | Kind::Ia5 => Some(String::from_utf8_lossy(body).into_owned()),
            Kind::Ctx => Some(e.tag.to_string()),
            _ => None,
        },
    };
    let mut ok = text.starts_with(label(e.kind)) || (e.kind == Kind::Gen && text.starts_with("GeneratlizedTime"));
    // the label ends there: a longer label would be another kind's
    if let Some(v) = value {
        ok &= match e.kind {
            Kind::Ctx => text == format!("[{v}]"),
            _ => text.split_once(": ").is_some_and(|(l, x)| x == v && l.chars().all(|c| c.is_ascii_alphanumeric())),
        };
    }
    if !ok {
        rep.miss(c(25) | if e.kind == Kind::Int { c(9) } else { 0 }, || format!("{:?} described as {:?}", e, text));
    }
}

/// what the independent re-encoder (C26) keeps of a notification
enum Note {
    Elem { id: u8, ctx: bool, contents: Vec<u8>, container: bool },
    Open,
    Close,
}

pub struct Watch<'r> {
    input: &'r [u8],
    items: &'r [Item],
    next: usize,
    rep: &'r mut Rep,
    diverged: bool,
    notes: Option<Vec<Note>>,
    pub error: Option<(String, String)>,
    pub errors: usize,
    pub events: u64,
    depth: i64,
    max_depth: i64,
    typed: bool,
}

impl<'r> Watch<'r> {
    fn touch(&mut self) {
        self.events += 1;
        if self.errors > 0 {
            self.rep.miss(c(5), || "notification after the error".into());
        }
    }
    fn at(&self) -> String {
        match self.items.get(self.next) {
            None => "the end of the input".into(),
            Some(Item::Elem(e)) => format!("{:?} at offset {}", e.kind, e.start),
            Some(Item::Begin) => "begin".into(),
            Some(Item::End) => "end".into(),
            Some(Item::Fault { why, at, .. }) => format!("fault {:?} at offset {at}", why),
        }
    }
    fn bracket(&mut self, begin: bool) {
        self.touch();
        self.depth += if begin { 1 } else { -1 };
        self.max_depth = self.max_depth.max(self.depth);
        if let Some(n) = &mut self.notes {
            if let (true, Some(Note::Elem { ctx: true, contents, .. })) = (begin, n.last_mut()) {
                // described by its children from here on
                *contents = Vec::new();
            }
            n.push(if begin { Note::Open } else { Note::Close });
        }
        if self.diverged {
            return;
        }
        let want = if begin { Item::Begin } else { Item::End };
        if self.items.get(self.next) == Some(&want) {
            self.next += 1;
            return;
        }
        self.diverged = true;
        let fault = match self.items.get(self.next) {
            Some(Item::Fault { why, .. }) => c(5) | why_props(*why),
            // an element of a container expected, or the container goes on / is left early
            _ => 0,
        };
        let at = self.at();
        self.rep.miss(c(4) | fault, || format!("{} notified where {at} was due", if begin { "begin" } else { "end" }));
    }
}

impl<'r> ParseHandler for Watch<'r> {
    fn begin_constructed(&mut self) {
        self.bracket(true)
    }
    fn end_constructed(&mut self) {
        self.bracket(false)
    }
    fn on_type(&mut self, asn: &ASNType) {
        self.touch();
        let k = kind_of(asn);
        self.rep.mix(k as u64 + 10);
        if let Some(n) = &mut self.notes {
            n.push(note(asn));
        }
        if self.rep.wants(c(3)) {
            // whatever should have happened instead
            crate::exposed::asn(self.rep, self.input, asn);
        }
        if self.diverged {
            return;
        }
        let items = self.items;
        match items.get(self.next) {
            Some(Item::Elem(e)) if e.kind == k => {
                self.next += 1;
                self.rep.count(kind_name(k));
                if e.lenient {
                    self.rep.count("lenient element accepted");
                }
                check_value(self.rep, self.input, asn, e, c(4));
                if self.typed {
                    check_typed(self.rep, self.input, asn, e);
                }
            }
            other => {
                self.diverged = true;
                let at = self.at();
                let m = match other {
                    Some(Item::Elem(e)) => c(4) | c(7) | c(25) | kind_props(e.kind) | kind_props(k),
                    Some(Item::Fault { why, .. }) => c(5) | why_props(*why),
                    _ => c(4),
                };
                self.rep.miss(m, || format!("{:?} notified where {at} was due", k));
            }
        }
    }
    fn on_error(&mut self, err: &ASNError) {
        self.touch();
        self.errors += 1;
        if self.error.is_none() {
            self.error = Some((format!("{:?}", err), err.to_string()));
        }
        if self.diverged {
            return;
        }
        match self.items.get(self.next) {
            Some(Item::Fault { why, at, end }) => {
                self.rep.count(why_name(*why));
                self.rep.mix(why_name(*why).len() as u64 + 100);
                if self.rep.wants(c(27)) {
                    let text = err.to_string();
                    if fault_text::known_der(&text) {
                        let want = fault_text::expected(&self.input[*at..*end], *why);
                        if !want.iter().any(|w| fault_text::same(&text, w)) {
                            self.rep.miss(c(27), || format!("the fault at offset {at} is described as {text:?}, not {want:?}"));
                        }
                        self.rep.count("descriptions compared");
                    } else {
                        self.rep.count("descriptions of unknown wording");
                    }
                }
                self.next += 1;
            }
            Some(Item::Elem(e)) if e.lenient => {
                self.rep.count("lenient element refused");
                self.diverged = true;
            }
            other => {
                self.diverged = true;
                let m = match other {
                    Some(Item::Elem(e)) => kind_props(e.kind) | if e.coff - e.start > 2 { c(6) } else { 0 } | if e.kind == Kind::Ctx { c(7) } else { 0 },
                    _ => 0,
                } | self.rep.refusal;
                let at = self.at();
                self.rep.miss(m | c(4) | c(5) | c(27), || format!("error {err:?} where {at} was due"));
            }
        }
    }
}

fn note(asn: &ASNType) -> Note {
    let k = kind_of(asn);
    let mut ctx = false;
    let mut container = false;
    let (id, contents) = match asn {
        ASNType::Boolean(w) => (1, vec![if w.value { 0xFF } else { 0 }]),
        ASNType::Integer(w) => (2, w.value.bytes.to_vec()),
        ASNType::BitString(w) => (3, pack(&w.value)),
        ASNType::OctetString(w) => (4, w.value.to_vec()),
        ASNType::Null => (5, vec![]),
        ASNType::ObjectIdentifier(w) => {
            let a: Vec<u64> = w.value.values().iter().map(|x| *x as u64).collect();
            (6, if a.len() >= 2 { enc::oid_contents(&a) } else { vec![] })
        }
        ASNType::UTF8String(w) => (0x0C, w.value.as_bytes().to_vec()),
        ASNType::PrintableString(w) => (0x13, w.value.as_bytes().to_vec()),
        ASNType::IA5String(w) => (0x16, w.value.as_bytes().to_vec()),
        ASNType::UTCTime(t) => (0x17, cal::utc_string(t.value).into_bytes()),
        ASNType::GeneralizedTime(t) => (0x18, cal::gen_string(t.value.min(crate::gen::T_MAX)).into_bytes()),
        ASNType::Sequence(_) | ASNType::Set(_) => {
            container = true;
            (k.id_octet(), vec![])
        }
        ASNType::ExplicitTag(w) => {
            ctx = true;
            // whether it is constructed shows in the begin notification that follows or not;
            // only then are the contents described by the children
            (0x80 | (w.value.value & 0x1F), w.value.contents.to_vec())
        }
    };
    Note::Elem { id, ctx, contents, container }
}

/// contents octets of a bit string from its size and its bits alone
pub fn pack(b: &ASNBitString) -> Vec<u8> {
    let size = b.size();
    let mut v = vec![((8 - size % 8) % 8) as u8];
    let mut cur = 0u8;
    let mut n = 0;
    for bit in b.iter().take(size.min(1 << 28)) {
        cur = cur << 1 | bit as u8;
        n += 1;
        if n % 8 == 0 {
            v.push(cur);
            cur = 0;
        }
    }
    if n % 8 != 0 {
        v.push(cur << (8 - n % 8));
    }
    v
}

/// re-encodes the input from the notifications; None if they are not a forest
fn reencode(notes: &[Note]) -> Option<Vec<u8>> {
    // sizes from the back, then emission from the front
    let n = notes.len();
    let mut hdr: Vec<(u8, usize)> = vec![(0, 0); n]; // identifier and contents size of elements
    let mut sums: Vec<usize> = vec![0];
    let mut closed: Option<usize> = None; // size of the group just opened (scanning backwards)
    for i in (0..n).rev() {
        match &notes[i] {
            Note::Close => {
                if closed.is_some() {
                    return None;
                }
                sums.push(0)
            }
            Note::Open => {
                if closed.is_some() {
                    return None;
                }
                closed = Some(sums.pop()?);
            }
            Note::Elem { id, ctx, contents, container } => {
                let grp = closed.take();
                let (id, len) = match grp {
                    Some(g) if *container => (*id, g),
                    Some(g) if *ctx => (*id | 0x20, g),
                    Some(_) => return None,
                    None if *container => return None,
                    None => (*id, contents.len()),
                };
                hdr[i] = (id, len);
                *sums.last_mut()? += 1 + enc::len_octets(len).len() + len;
            }
        }
    }
    if sums.len() != 1 || closed.is_some() {
        return None;
    }
    let mut out = Vec::with_capacity(sums[0]);
    for i in 0..n {
        if let Note::Elem { contents, .. } = &notes[i] {
            out.push(hdr[i].0);
            out.extend(enc::len_octets(hdr[i].1));
            if !matches!(notes.get(i + 1), Some(Note::Open)) {
                out.extend_from_slice(contents);
            }
        }
    }
    Some(out)
}

/// runs the walk on `input` under the monitor
pub fn walk(input: &[u8], rep: &mut Rep) -> bool {
    let items = der_ref::walk(input);
    walk_with(input, &items, rep)
}

pub fn walk_with(input: &[u8], items: &[Item], rep: &mut Rep) -> bool {
    let want_notes = rep.wants(c(26));
    let typed = rep.wants(c(25) | c(1));
    let mut w = Watch {
        input,
        items,
        next: 0,
        rep,
        diverged: false,
        notes: want_notes.then(Vec::new),
        error: None,
        errors: 0,
        events: 0,
        depth: 0,
        max_depth: 0,
        typed,
    };
    let res = parse_all(input, &mut w);
    let Watch { next, diverged, notes, error, errors, events, depth, max_depth, rep, .. } = w;
    match &res {
        Ok(()) => {
            if errors > 0 {
                rep.miss(c(5), || "success returned after an error was notified".into());
            }
            if depth != 0 {
                rep.miss(c(4), || format!("begin and end notifications unbalanced by {depth}"));
            }
            if !diverged {
                match items.get(next) {
                    None => {}
                    Some(Item::Fault { why, at, .. }) => {
                        rep.miss(c(5) | why_props(*why), || format!("input accepted despite {:?} at offset {at}", why))
                    }
                    Some(i) => rep.miss(c(4) | c(5), || format!("walk ended before {:?}", i)),
                }
            }
            rep.count("walks accepted");
        }
        Err(e) => {
            if errors != 1 {
                rep.miss(c(5), || format!("error returned, but notified {errors} times"));
            }
            if let Some((d, s)) = &error {
                if *d != format!("{:?}", e) || *s != e.to_string() {
                    rep.miss(c(5), || format!("returned error {e:?} is not the notified {d}"));
                }
            }
            if !diverged && items.get(next).is_some() {
                // the error was returned without the notification that is checked above
                match &items[next] {
                    Item::Fault { .. } => {}
                    Item::Elem(e) if e.lenient => {}
                    i => rep.miss(c(4) | c(5), || format!("error {e:?} where {i:?} was due")),
                }
            }
            rep.count("walks refused");
        }
    }
    if let (Ok(()), Some(notes)) = (&res, &notes) {
        match reencode(notes) {
            None => rep.miss(c(26), || "the notifications do not form an element tree".into()),
            Some(out) => {
                if out != input && !only_padding(&out, input, items) {
                    let at = out.iter().zip(input).position(|(a, b)| a != b).unwrap_or(out.len().min(input.len()));
                    rep.miss(c(26), || format!("the notifications re-encode to {} octets that differ from the input at offset {at}", out.len()));
                } else {
                    rep.count("inputs re-encoded from notifications");
                }
            }
        }
    }
    rep.mix(res.is_ok() as u64);
    rep.add("notifications", events);
    rep.max("max depth", max_depth as u64);
    if events > 0 {
        rep.nontrivial = true;
    }
    res.is_ok()
}

fn only_padding(out: &[u8], input: &[u8], items: &[Item]) -> bool {
    if out.len() != input.len() {
        return false;
    }
    let mut masked = input.to_vec();
    for i in items {
        if let Item::Elem(Elem { val: Val::Bits { unused }, coff, clen, .. }) = i {
            if *unused > 0 {
                masked[coff + clen - 1] &= 0xFFu8 << unused;
            }
        }
    }
    out == masked
}
