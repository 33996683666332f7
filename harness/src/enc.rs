//! Independent DER encoder over element trees that can also carry deliberate damage.

#[derive(Clone, Debug)]
pub enum T {
    /// primitive: identifier, contents
    P(u8, Vec<u8>),
    /// constructed (or wrapping) element: identifier, leading contents octets, children
    C(u8, Vec<u8>, Vec<T>),
    /// identifier, literal length octets, children: a forged length
    Forged(u8, Vec<u8>, Vec<T>),
    /// literal octets without a header
    Raw(Vec<u8>),
}

pub fn len_octets(n: usize) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let be = n.to_be_bytes();
    let skip = be.iter().take_while(|b| **b == 0).count();
    let mut v = vec![0x80 | (be.len() - skip) as u8];
    v.extend_from_slice(&be[skip..]);
    v
}

pub fn tlv(id: u8, contents: &[u8]) -> Vec<u8> {
    let mut v = vec![id];
    v.extend(len_octets(contents.len()));
    v.extend_from_slice(contents);
    v
}

impl T {
    pub fn encode(&self, out: &mut Vec<u8>) {
        match self {
            T::P(id, c) => {
                out.push(*id);
                out.extend(len_octets(c.len()));
                out.extend_from_slice(c);
            }
            T::C(id, pre, kids) => {
                let mut body = pre.clone();
                for k in kids {
                    k.encode(&mut body);
                }
                out.push(*id);
                out.extend(len_octets(body.len()));
                out.extend(body);
            }
            T::Forged(id, len, kids) => {
                out.push(*id);
                out.extend_from_slice(len);
                for k in kids {
                    k.encode(out);
                }
            }
            T::Raw(b) => out.extend_from_slice(b),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.encode(&mut v);
        v
    }
    pub fn count(&self) -> usize {
        match self {
            T::C(_, _, k) | T::Forged(_, _, k) => 1 + k.iter().map(|t| t.count()).sum::<usize>(),
            _ => 1,
        }
    }
}

pub fn encode_all(ts: &[T]) -> Vec<u8> {
    let mut v = Vec::new();
    for t in ts {
        t.encode(&mut v);
    }
    v
}

pub fn count_all(ts: &[T]) -> usize {
    ts.iter().map(|t| t.count()).sum()
}

pub fn seq(kids: Vec<T>) -> T {
    T::C(0x30, vec![], kids)
}
pub fn set(kids: Vec<T>) -> T {
    T::C(0x31, vec![], kids)
}
pub fn ctx(n: u8, kids: Vec<T>) -> T {
    T::C(0xA0 | n, vec![], kids)
}
/// octet string holding DER
pub fn wrap_octets(kids: Vec<T>) -> T {
    T::C(0x04, vec![], kids)
}

pub fn oid_contents(arcs: &[u64]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut push = |mut s: u64| {
        let mut g = vec![(s & 0x7F) as u8];
        s >>= 7;
        while s > 0 {
            g.push((s & 0x7F) as u8 | 0x80);
            s >>= 7;
        }
        g.reverse();
        v.extend(g);
    };
    push(arcs[0] * 40 + arcs[1]);
    for a in &arcs[2..] {
        push(*a);
    }
    v
}
pub fn oid(arcs: &[u64]) -> T {
    T::P(0x06, oid_contents(arcs))
}
pub fn int_contents(v: i128) -> Vec<u8> {
    let be = v.to_be_bytes();
    let mut i = 0;
    while i < 15 && ((be[i] == 0 && be[i + 1] < 0x80) || (be[i] == 0xFF && be[i + 1] >= 0x80)) {
        i += 1;
    }
    be[i..].to_vec()
}
pub fn int(v: i128) -> T {
    T::P(0x02, int_contents(v))
}
pub fn boolean(v: bool) -> T {
    T::P(0x01, vec![if v { 0xFF } else { 0 }])
}
pub fn bits(unused: u8, octets: &[u8]) -> T {
    let mut c = vec![unused];
    c.extend_from_slice(octets);
    T::P(0x03, c)
}

/// Parses arbitrary octets into a tree for structural mutation (best effort, never fails:
/// what is not an element becomes literal octets).
pub fn parse_tree(b: &[u8], depth: usize) -> Vec<T> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match header(&b[i..]) {
            Some((h, len)) => {
                let id = b[i];
                let c = &b[i + h..i + h + len];
                let t = if id & 0x20 != 0 && depth > 0 {
                    T::C(id, vec![], parse_tree(c, depth - 1))
                } else if id == 0x04 && depth > 0 && len > 1 && is_der(c) {
                    T::C(id, vec![], parse_tree(c, depth - 1))
                } else {
                    T::P(id, c.to_vec())
                };
                out.push(t);
                i += h + len;
            }
            None => {
                out.push(T::Raw(b[i..].to_vec()));
                break;
            }
        }
    }
    out
}

fn header(b: &[u8]) -> Option<(usize, usize)> {
    let l = *b.get(1)? as usize;
    let (h, len) = if l < 128 {
        (2, l)
    } else {
        let n = l & 0x7F;
        if n == 0 || n > 4 {
            return None;
        }
        let o = b.get(2..2 + n)?;
        (2 + n, o.iter().fold(0usize, |v, x| v << 8 | *x as usize))
    };
    (b.len() >= h && b.len() - h >= len).then_some((h, len))
}

fn is_der(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        match header(&b[i..]) {
            Some((h, len)) if crate::der_ref::identify(b[i]).is_some() => i += h + len,
            _ => return false,
        }
    }
    true
}
