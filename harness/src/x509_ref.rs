//! Reference decoders for certificates, names and extensions (RFC 5280 syntax), on top of
//! `der_ref`. Results are spans of the input. `Err` must be refused; `Ok` with `lenient` may
//! be refused, but if it is accepted the values must be these (`undef` parts excepted).

use crate::der_ref::{self, Elem, Item, Kind, Val, Why};
use crate::rep::c;
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq)]
pub struct Bad {
    pub what: &'static str,
    /// properties that demand the refusal
    pub props: u32,
}
pub type R<T> = Result<T, Bad>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Span {
    pub off: usize,
    pub len: usize,
}
impl Span {
    pub fn of<'a>(&self, input: &'a [u8]) -> &'a [u8] {
        &input[self.off..self.off + self.len]
    }
    pub fn end(&self) -> usize {
        self.off + self.len
    }
}

pub struct Cur<'a> {
    pub input: &'a [u8],
    pub pos: usize,
    pub end: usize,
    pub lenient: &'a Cell<bool>,
    pub props: u32,
}

fn bad<T>(what: &'static str, props: u32) -> R<T> {
    Err(Bad { what, props })
}

impl<'a> Cur<'a> {
    pub fn done(&self) -> bool {
        self.pos == self.end
    }
    pub fn peek(&self) -> Option<u8> {
        (self.pos < self.end).then(|| self.input[self.pos])
    }
    pub fn any(&mut self, missing: &'static str) -> R<Elem> {
        if self.done() {
            return bad(missing, self.props);
        }
        match der_ref::element(self.input, self.pos, self.end) {
            Ok(e) => {
                self.lenient.set(self.lenient.get() | (e.lenient));
                self.pos = e.end();
                Ok(e)
            }
            Err(w) => bad(
                match w {
                    Why::Ident => "unsupported identifier",
                    Why::Length => "bad length",
                    Why::Truncated => "truncated element",
                    Why::Content(_) => "bad contents",
                },
                self.props,
            ),
        }
    }
    pub fn expect(&mut self, k: Kind, what: &'static str) -> R<Elem> {
        let e = self.any(what)?;
        if e.kind != k {
            return bad(what, self.props);
        }
        Ok(e)
    }
    pub fn enter(&mut self, k: Kind, what: &'static str) -> R<Cur<'a>> {
        let e = self.expect(k, what)?;
        Ok(Cur { input: self.input, pos: e.coff, end: e.end(), lenient: self.lenient, props: self.props })
    }
    pub fn finish(&self, what: &'static str) -> R<()> {
        if !self.done() {
            return bad(what, self.props);
        }
        Ok(())
    }
}

pub fn span(e: &Elem) -> Span {
    Span { off: e.coff, len: e.clen }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Alg {
    pub arcs: Vec<u64>,
    pub params: Option<Elem>,
}

fn arcs(e: &Elem) -> Vec<u64> {
    match &e.val {
        Val::Oid(a) => a.clone(),
        _ => unreachable!(),
    }
}

fn alg(p: &mut Cur) -> R<Alg> {
    let mut s = p.enter(Kind::Seq, "algorithm identifier missing or not a SEQUENCE")?;
    let o = s.expect(Kind::Oid, "algorithm missing or not an OBJECT IDENTIFIER")?;
    let params = if s.done() { None } else { Some(s.any("")?) };
    s.finish("trailing content in an algorithm identifier")?;
    if let Some(e) = &params {
        // contents of constructed parameters: not the decoder's business to look into
        if e.is_container() && faulty(p.input, e.coff, e.end()) {
            p.lenient.set(true);
        }
    }
    Ok(Alg { arcs: arcs(&o), params })
}

fn faulty(input: &[u8], off: usize, end: usize) -> bool {
    // offsets inside the walk are relative, only the presence of a fault matters
    der_ref::walk(&input[off..end]).iter().any(|i| matches!(i, Item::Fault { .. }) || matches!(i, Item::Elem(e) if e.lenient))
}

fn time(p: &mut Cur) -> R<u64> {
    let e = p.any("time missing")?;
    match (&e.kind, &e.val) {
        (Kind::Utc | Kind::Gen, Val::Time(t)) => Ok(*t),
        _ => bad("time of another type", p.props),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct BitsV {
    pub unused: u8,
    pub oct: Span,
    /// constructed implicit bit string: outside DER, value not judged
    pub undef: bool,
}
fn bits_of(e: &Elem) -> BitsV {
    let unused = match e.val {
        Val::Bits { unused } => unused,
        _ => unreachable!(),
    };
    BitsV { unused, oct: Span { off: e.coff + 1, len: e.clen - 1 }, undef: false }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cert {
    pub tbs: Span,
    pub version: u8,
    pub serial: Span,
    pub sig: Alg,
    pub issuer: Span,
    pub not_before: u64,
    pub not_after: u64,
    pub subject: Span,
    pub key_alg: Alg,
    pub key: BitsV,
    pub issuer_uid: Option<BitsV>,
    pub subject_uid: Option<BitsV>,
    /// contents of the [3] element
    pub exts: Option<Span>,
    pub outer: Alg,
    pub signature: BitsV,
    pub lenient: bool,
}

pub fn cert(input: &[u8]) -> R<Cert> {
    let lenient = Cell::new(false);
    let mut top = Cur { input, pos: 0, end: input.len(), lenient: &lenient, props: c(14) };
    let mut ce = top.enter(Kind::Seq, "certificate is not a SEQUENCE")?;
    let te = ce.expect(Kind::Seq, "tbs certificate missing or not a SEQUENCE")?;
    let mut t = Cur { input, pos: te.coff, end: te.end(), lenient: ce.lenient, props: c(14) };

    let mut version = 0;
    if matches!(t.peek(), Some(0xA0 | 0x80)) {
        let v = t.any("")?;
        if !v.constructed {
            t.lenient.set(true);
        }
        let mut vp = Cur { input, pos: v.coff, end: v.end(), lenient: t.lenient, props: c(14) };
        let i = vp.expect(Kind::Int, "version is not an INTEGER")?;
        vp.finish("trailing content in the version")?;
        version = match der_ref::int_value(span(&i).of(input)) {
            Some(x @ 0..=2) => x as u8,
            _ => return bad("version out of range", c(14)),
        };
        if version == 0 {
            t.lenient.set(true); // DEFAULT encoded explicitly
        }
    }
    let serial = t.expect(Kind::Int, "serial number missing or not an INTEGER")?;
    let sig = alg(&mut t)?;
    let issuer = t.expect(Kind::Seq, "issuer missing or not a SEQUENCE")?;
    let mut v = t.enter(Kind::Seq, "validity missing or not a SEQUENCE")?;
    let not_before = time(&mut v)?;
    let not_after = time(&mut v)?;
    v.finish("trailing content in the validity")?;
    let subject = t.expect(Kind::Seq, "subject missing or not a SEQUENCE")?;
    let mut k = t.enter(Kind::Seq, "public key info missing or not a SEQUENCE")?;
    let key_alg = alg(&mut k)?;
    let key = bits_of(&k.expect(Kind::Bits, "public key missing or not a BIT STRING")?);
    k.finish("trailing content in the public key info")?;

    let mut uids = [None, None];
    for n in 1..=2u8 {
        if matches!(t.peek(), Some(x) if x == 0x80 | n || x == 0xA0 | n) {
            let e = t.any("")?;
            if version == 0 {
                t.lenient.set(true);
            }
            uids[n as usize - 1] = Some(if e.constructed {
                t.lenient.set(true);
                BitsV { unused: 0, oct: Span { off: e.coff, len: 0 }, undef: true }
            } else {
                match der_ref::content(Kind::Bits, span(&e).of(input)) {
                    Some((Val::Bits { unused }, l)) => {
                        t.lenient.set(t.lenient.get() | (l));
                        BitsV { unused, oct: Span { off: e.coff + 1, len: e.clen - 1 }, undef: false }
                    }
                    _ => return bad("unique identifier is not a bit string", c(14)),
                }
            });
        }
    }
    let mut exts = None;
    if matches!(t.peek(), Some(0xA3 | 0x83)) {
        let e = t.any("")?;
        if !e.constructed || version < 2 {
            t.lenient.set(true);
        }
        exts = Some(span(&e));
    }
    t.finish("unexpected content at the end of the tbs certificate")?;
    let outer = alg(&mut ce)?;
    let signature = bits_of(&ce.expect(Kind::Bits, "signature missing or not a BIT STRING")?);
    ce.finish("trailing content in the certificate")?;
    top.finish("trailing content after the certificate")?;

    // decoded lazily: a malformed name or extension list may also be refused here
    for n in [&issuer, &subject] {
        let l = Cell::new(false);
        if name_shape(input, span(n), &l).is_err() || l.get() {
            lenient.set(true);
        }
    }
    if let Some(x) = &exts {
        let l = Cell::new(false);
        if ext_shape(input, *x, &l).is_err() || l.get() {
            lenient.set(true);
        }
    }
    let [issuer_uid, subject_uid] = uids;
    if sig.arcs != outer.arcs
        || sig.params.as_ref().map(|e| (e.kind, span(e).of(input))) != outer.params.as_ref().map(|e| (e.kind, span(e).of(input)))
        || not_before > not_after
    {
        lenient.set(true);
    }
    Ok(Cert {
        tbs: span(&te),
        version,
        serial: span(&serial),
        sig,
        issuer: span(&issuer),
        not_before,
        not_after,
        subject: span(&subject),
        key_alg,
        key,
        issuer_uid,
        subject_uid,
        exts,
        outer,
        signature,
        lenient: lenient.get(),
    })
}

/// Name ::= SEQUENCE OF SET SIZE (1..MAX) OF SEQUENCE { OID, ANY }, everything well formed
fn name_shape(input: &[u8], s: Span, lenient: &Cell<bool>) -> R<()> {
    let mut p = Cur { input, pos: s.off, end: s.end(), lenient, props: c(20) };
    while !p.done() {
        let mut set = p.enter(Kind::Set, "")?;
        if set.done() {
            return bad("empty set", c(20));
        }
        while !set.done() {
            let mut a = set.enter(Kind::Seq, "")?;
            a.expect(Kind::Oid, "")?;
            let v = a.any("")?;
            a.finish("")?;
            if v.is_container() && faulty(input, v.coff, v.end()) {
                set.lenient.set(true);
            }
        }
    }
    Ok(())
}

/// SEQUENCE OF SEQUENCE { OID, BOOLEAN DEFAULT FALSE, OCTET STRING }, syntax only
fn ext_shape(input: &[u8], s: Span, lenient: &Cell<bool>) -> R<()> {
    let mut p = Cur { input, pos: s.off, end: s.end(), lenient, props: c(16) };
    let mut l = p.enter(Kind::Seq, "")?;
    while !l.done() {
        let mut e = l.enter(Kind::Seq, "")?;
        e.expect(Kind::Oid, "")?;
        if e.peek() == Some(1) {
            e.any("")?;
        }
        e.expect(Kind::Octets, "")?;
        e.finish("")?;
    }
    p.finish("")?;
    Ok(())
}

// ------------------------------------------------------------------------------ names

#[derive(Clone, Debug, PartialEq, Default)]
pub struct NameV {
    /// C, ST, L, O, OU, CN
    pub comp: [Option<Span>; 6],
    pub lenient: bool,
}

pub fn name(input: &[u8], s: Span) -> R<NameV> {
    let mut out = NameV::default();
    let lenient = Cell::new(false);
    let mut p = Cur { input, pos: s.off, end: s.end(), lenient: &lenient, props: c(20) };
    while !p.done() {
        let mut set = p.enter(Kind::Set, "relative name is not a SET")?;
        if set.done() {
            return bad("empty relative name", c(20));
        }
        let mut prev: Option<Span> = None;
        while !set.done() {
            let start = set.pos;
            let mut a = set.enter(Kind::Seq, "attribute is not a SEQUENCE")?;
            let o = a.expect(Kind::Oid, "attribute type is not an OBJECT IDENTIFIER")?;
            let v = a.any("attribute value missing")?;
            a.finish("trailing content in an attribute")?;
            if let Some(i) = crate::gen::component(&arcs(&o)) {
                if !matches!(v.kind, Kind::Utf8 | Kind::Printable | Kind::Ia5) {
                    return bad("supported attribute with a value that is not a string", c(20));
                }
                if out.comp[i].is_some() {
                    return bad("repeated attribute", c(20));
                }
                out.comp[i] = Some(span(&v));
            } else if v.is_container() && faulty(input, v.coff, v.end()) {
                set.lenient.set(true);
            }
            let me = Span { off: start, len: set.pos - start };
            if prev.is_some_and(|q| q.of(input) > me.of(input)) {
                set.lenient.set(true); // SET OF not sorted
            }
            prev = Some(me);
        }
    }
    out.lenient = lenient.get();
    Ok(out)
}

// ------------------------------------------------------------------------- extensions

#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    Ski(Span),
    Ku([bool; 9]),
    San(Vec<(u8, Span, Vec<u64>)>),
    Bc { ca: bool, len: Option<i32> },
    /// index into gen::EKU_OIDS
    Eku(Vec<usize>),
    Modbus(Span),
    Unknown(Span),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ext {
    pub arcs: Vec<u64>,
    pub critical: bool,
    pub content: Content,
    pub lenient: bool,
}

/// the contents octets of one Extension SEQUENCE
pub fn ext(input: &[u8], s: Span) -> R<Ext> {
    let lenient = Cell::new(false);
    let mut p = Cur { input, pos: s.off, end: s.end(), lenient: &lenient, props: c(16) };
    let o = arcs(&p.expect(Kind::Oid, "extension identifier missing or of another type")?);
    let mut critical = false;
    if p.peek() == Some(1) {
        let b = p.any("")?;
        critical = b.val == Val::Bool(true);
        if !critical {
            p.lenient.set(true); // DEFAULT encoded explicitly
        }
    }
    let v = p.expect(Kind::Octets, "extension value missing or not an OCTET STRING")?;
    p.finish("trailing content in an extension")?;
    let content = content(input, &o, span(&v), p.lenient)?;
    Ok(Ext { arcs: o, critical, content, lenient: lenient.get() })
}

fn content(input: &[u8], o: &[u64], s: Span, lenient: &Cell<bool>) -> R<Content> {
    let kind = crate::gen::EXT_OIDS.iter().position(|x| *x == o);
    let own = match kind {
        Some(1) | Some(3) => c(17),
        Some(0) | Some(4) | Some(5) => c(18),
        Some(2) => c(19),
        _ => return Ok(Content::Unknown(s)),
    };
    let m = c(16) | own;
    let mut p = Cur { input, pos: s.off, end: s.end(), lenient, props: m };
    Ok(match kind.unwrap() {
        0 => {
            let e = p.expect(Kind::Octets, "key identifier is not an OCTET STRING")?;
            p.finish("trailing content after the key identifier")?;
            Content::Ski(span(&e))
        }
        1 => {
            let e = p.expect(Kind::Bits, "key usage is not a BIT STRING")?;
            p.finish("trailing content after the key usage")?;
            let b = bits_of(&e);
            let size = b.oct.len * 8 - b.unused as usize;
            let mut f = [false; 9];
            for (i, x) in f.iter_mut().enumerate() {
                *x = i < size && b.oct.of(input)[i / 8] >> (7 - i % 8) & 1 == 1;
            }
            Content::Ku(f)
        }
        2 => {
            let mut l = p.enter(Kind::Seq, "alternative names are not a SEQUENCE")?;
            let mut names = Vec::new();
            if l.done() {
                l.lenient.set(true);
            }
            while !l.done() {
                let e = l.expect(Kind::Ctx, "alternative name is not context-specific")?;
                let body = span(&e).of(input);
                let mut a = vec![];
                if e.constructed {
                    l.lenient.set(true); // implicit primitives in constructed form
                }
                match e.tag {
                    1 | 2 | 6 => match der_ref::content(Kind::Ia5, body) {
                        Some((_, x)) => l.lenient.set(l.lenient.get() | (x)),
                        None => return bad("alternative name is not a string", m),
                    },
                    7 => l.lenient.set(l.lenient.get() | (!matches!(body.len(), 4 | 16))),
                    8 => match der_ref::oid(body) {
                        Some((x, y)) => {
                            a = x;
                            l.lenient.set(l.lenient.get() | (y));
                        }
                        None => return bad("registered identifier is malformed", m),
                    },
                    _ => return bad("alternative name of an unsupported kind", m),
                }
                names.push((e.tag, span(&e), a));
            }
            p.finish("trailing content after the alternative names")?;
            Content::San(names)
        }
        3 => {
            let mut l = p.enter(Kind::Seq, "basic constraints are not a SEQUENCE")?;
            let mut ca = false;
            let mut len = None;
            if l.peek() == Some(1) {
                ca = l.any("")?.val == Val::Bool(true);
                if !ca {
                    l.lenient.set(true);
                }
            }
            if l.peek() == Some(2) {
                let e = l.any("")?;
                let v = match der_ref::int_value(span(&e).of(input)) {
                    Some(v) if v >= i32::MIN as i128 && v <= i32::MAX as i128 => v as i32,
                    _ => return bad("path length beyond 32 bits", m),
                };
                if v < 0 || !ca {
                    l.lenient.set(true);
                }
                len = Some(v);
            }
            l.finish("unexpected content in basic constraints")?;
            p.finish("trailing content after the basic constraints")?;
            Content::Bc { ca, len }
        }
        4 => {
            let mut l = p.enter(Kind::Seq, "key purposes are not a SEQUENCE")?;
            let mut v = Vec::new();
            if l.done() {
                l.lenient.set(true);
            }
            while !l.done() {
                let a = arcs(&l.expect(Kind::Oid, "key purpose is not an OBJECT IDENTIFIER")?);
                match crate::gen::EKU_OIDS.iter().position(|x| *x == &a[..]) {
                    Some(i) => v.push(i),
                    None => return bad("unsupported key purpose", m),
                }
            }
            p.finish("trailing content after the key purposes")?;
            Content::Eku(v)
        }
        _ => {
            let e = p.expect(Kind::Utf8, "role is not a UTF8String")?;
            p.finish("trailing content after the role")?;
            Content::Modbus(span(&e))
        }
    })
}

pub struct ExtList {
    pub exts: Vec<Ext>,
    /// spans of the contents of each Extension SEQUENCE
    pub spans: Vec<Span>,
    pub lenient: bool,
}

/// the contents octets of the [3] element
pub fn ext_list(input: &[u8], s: Span) -> R<ExtList> {
    let lenient = Cell::new(false);
    let mut exts: Vec<Ext> = Vec::new();
    let mut spans = Vec::new();
    let mut p = Cur { input, pos: s.off, end: s.end(), lenient: &lenient, props: c(16) };
    let mut l = p.enter(Kind::Seq, "extensions are not a SEQUENCE")?;
    if l.done() {
        l.lenient.set(true);
    }
    while !l.done() {
        let e = l.expect(Kind::Seq, "extension is not a SEQUENCE")?;
        spans.push(span(&e));
        let x = ext(input, span(&e))?;
        l.lenient.set(l.lenient.get() | (x.lenient || exts.iter().any(|y| y.arcs == x.arcs)));
        exts.push(x);
    }
    p.finish("trailing content after the extensions")?;
    Ok(ExtList { exts, spans, lenient: lenient.get() })
}
