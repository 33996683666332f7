//! What the monitors collected: mismatches tagged with the properties they refute, and counts
//! of what was observed.

use std::collections::{BTreeMap, HashSet};

pub const fn c(n: u32) -> u32 {
    1 << (n - 1)
}

pub struct Miss {
    pub what: String,
}

pub struct Rep {
    /// properties whose mismatches are reported
    pub want: u32,
    /// properties a refusal of acceptable input additionally counts against
    pub refusal: u32,
    pub misses: Vec<Miss>,
    pub counts: BTreeMap<&'static str, u64>,
    pub evals: u64,
    pub seen: HashSet<u64>,
    /// behaviour classes: hash of what the monitors saw, without the payload octets
    pub shapes: HashSet<u64>,
    pub shape: u64,
    pub nontrivial: bool,
}

impl Rep {
    pub fn new(want: u32) -> Rep {
        Rep {
            want,
            refusal: 0,
            misses: vec![],
            counts: BTreeMap::new(),
            evals: 0,
            seen: HashSet::new(),
            shapes: HashSet::new(),
            shape: 0,
            nontrivial: false,
        }
    }
    pub fn miss(&mut self, mask: u32, what: impl FnOnce() -> String) {
        if mask & self.want != 0 && self.misses.len() < 8 {
            self.misses.push(Miss { what: what() });
        }
    }
    pub fn wants(&self, mask: u32) -> bool {
        self.want & mask != 0
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counts.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn mix(&mut self, x: u64) {
        self.shape = (self.shape.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    pub fn begin_input(&mut self) {
        self.evals += 1;
        self.shape = 0;
        self.nontrivial = false;
    }
    pub fn end_input(&mut self, input: &[u8]) {
        if self.nontrivial && self.seen.len() < 4_000_000 {
            self.seen.insert(hash(input));
        }
        if self.shapes.len() < 1_000_000 {
            self.shapes.insert(self.shape);
        }
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ b.len() as u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn hex_short(b: &[u8]) -> String {
    if b.len() <= 48 {
        hex(b)
    } else {
        format!("{}..({} octets)", hex(&b[..40]), b.len())
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    s.chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect()
}
