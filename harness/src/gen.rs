//! Structured generators. They build inputs from values, so what was meant to be encoded is
//! known independently of any decoder.

use crate::cal;
use crate::der_ref::Kind;
use crate::enc::{self, T};
use crate::rng::Rng;

pub const T_MAX: u64 = 253_402_300_799; // 9999-12-31 23:59:59
pub const T_2050: u64 = 2_524_608_000;

pub const NAMED_OIDS: &[&[u64]] = &[
    &[1, 2, 840, 113549, 1, 1, 1],
    &[1, 2, 840, 113549, 1, 1, 5],
    &[1, 3, 101, 112],
    &[2, 5, 4, 3],
    &[2, 5, 4, 6],
    &[2, 5, 4, 7],
    &[2, 5, 4, 10],
    &[2, 5, 4, 11],
    &[2, 5, 4, 8],
    &[1, 2, 840, 113549, 1, 9, 1],
];
pub const EXT_OIDS: &[&[u64]] = &[
    &[2, 5, 29, 14],
    &[2, 5, 29, 15],
    &[2, 5, 29, 17],
    &[2, 5, 29, 19],
    &[2, 5, 29, 37],
    &[1, 3, 6, 1, 4, 1, 50316, 802, 1],
];
pub const EKU_OIDS: &[&[u64]] = &[
    &[1, 3, 6, 1, 5, 5, 7, 3, 1],
    &[1, 3, 6, 1, 5, 5, 7, 3, 2],
    &[1, 3, 6, 1, 5, 5, 7, 3, 3],
    &[1, 3, 6, 1, 5, 5, 7, 3, 4],
    &[1, 3, 6, 1, 5, 5, 7, 3, 8],
    &[1, 3, 6, 1, 5, 5, 7, 3, 9],
];
pub const OTHER_OIDS: &[&[u64]] = &[
    &[1, 2, 840, 113549, 1, 1, 11],
    &[1, 2, 840, 10045, 2, 1],
    &[1, 2, 840, 10045, 3, 1, 7],
    &[2, 5, 29, 31],
    &[2, 5, 29, 32],
    &[2, 5, 29, 35],
    &[2, 5, 29, 18],
    &[2, 5, 29, 37, 0],
    &[1, 3, 6, 1, 5, 5, 7, 3, 5],
    &[1, 3, 6, 1, 5, 5, 7, 3, 10],
    &[1, 3, 6, 1, 5, 5, 7, 1, 1],
    &[2, 5, 4, 5],
    &[2, 5, 4, 4],
    &[2, 5, 4, 9],
    &[2, 5, 4, 12],
    &[0, 9, 2342, 19200300, 100, 1, 25],
    &[2, 999],
    &[2, 999, 3],
    &[2, 40],
    &[2, 47],
    &[2, 48],
    &[2, 79],
    &[2, 80],
    &[0, 0],
    &[1, 39],
    &[1, 3, 132, 0, 34],
];

pub const WORDS: [&str; 32] = [
    "http://", "https://", "ldap://", "mailto:", "urn:", "*.", "www.", ".com", ".local", "localhost", "@", "://", "xn--", "..", "\r\n", "null", "CN=", "=", ",", "+", "/", "\\", "\"", "{}", "%s", "<", ";", "#", "  ", "\t", "ldap", "file:///",
];

pub struct Gen {
    pub rng: Rng,
    /// constants the code under test compared against (filled by the coverage loop)
    pub dict: Vec<u64>,
    /// octet strings it compared against
    pub words: Vec<Vec<u8>>,
    /// identifiers in use, and those written out in the sources under test
    pub known: Vec<Vec<u64>>,
}

impl Gen {
    pub fn new(rng: Rng) -> Gen {
        let s = crate::oids::source();
        Gen { rng, dict: s.ints.clone(), words: s.words.clone(), known: crate::oids::known() }
    }

    pub fn size(&mut self) -> usize {
        match self.rng.below(40) {
            0..=19 => self.rng.below(12),
            20..=31 => self.rng.below(40),
            32..=35 => *self.rng.pick(&[15, 16, 17, 31, 32, 33, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258]),
            36 => self.rng.range(100, 400),
            37 => {
                if self.dict.is_empty() {
                    5
                } else {
                    let d = *self.rng.pick(&self.dict) as usize;
                    (d.wrapping_add(self.rng.below(3)).wrapping_sub(1)) % 3000
                }
            }
            38 => *self.rng.pick(&[511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096]),
            _ => self.rng.below(80),
        }
    }

    pub fn small(&mut self) -> usize {
        match self.rng.below(30) {
            0..=25 => self.rng.below(5),
            26..=28 => self.rng.below(12),
            _ => *self.rng.pick(&[16, 20, 31, 32, 33, 50, 64, 65]),
        }
    }

    pub fn arc(&mut self) -> u64 {
        match self.rng.below(12) {
            0..=3 => self.rng.below(128) as u64,
            4 => self.rng.below(60) as u64,
            5..=7 => {
                let base = *self.rng.pick(&[39u64, 40, 127, 128, 16383, 16384, 2097151, 2097152, 113549, 268435455 - 80]);
                (base + self.rng.below(3) as u64).saturating_sub(1)
            }
            8 if !self.dict.is_empty() => *self.rng.pick(&self.dict) % (1 << 28),
            9 => self.rng.u64() % (1 << 28),
            10 => self.rng.u64() % (1 << 21),
            _ => self.rng.u64() % (1 << 14),
        }
    }

    /// arcs whose subidentifiers are all below 2^28
    pub fn arcs(&mut self) -> Vec<u64> {
        let mut a: Vec<u64> = match self.rng.below(10) {
            0 | 1 => self.rng.pick(NAMED_OIDS).to_vec(),
            2 => self.rng.pick(EXT_OIDS).to_vec(),
            3 => self.rng.pick(EKU_OIDS).to_vec(),
            4 => self.rng.pick(&self.known).clone(),
            _ => {
                let first = self.rng.below(3) as u64;
                let second = if first < 2 { self.rng.below(40) as u64 } else { self.arc().min((1 << 28) - 81) };
                let mut v = vec![first, second];
                for _ in 0..self.rng.below(10) {
                    let x = self.arc();
                    v.push(x);
                }
                v
            }
        };
        // near misses of well-known identifiers
        match self.rng.below(8) {
            0 => {
                let x = self.arc();
                a.push(x)
            }
            1 if a.len() > 2 => {
                a.pop();
            }
            2 if a.len() > 2 => {
                let i = self.rng.range(2, a.len() - 1);
                a[i] = (a[i] + 1) % (1 << 28);
            }
            _ => {}
        }
        a
    }

    /// an element, and others that a careless key (sum, xor, polynomial, ends, length) would
    /// take for it
    pub fn family(&mut self, n: usize) -> Vec<Vec<u8>> {
        const MULT: [i64; 10] = [0, 1, -1, 16, 31, 32, 33, 37, 128, 256];
        let mut v;
        if self.rng.chance(1, 2) {
            let a = match self.rng.below(4) {
                0 => self.rng.pick(NAMED_OIDS).to_vec(),
                1 => self.rng.pick(EXT_OIDS).to_vec(),
                2 => self.rng.pick(EKU_OIDS).to_vec(),
                _ => self.arcs(),
            };
            v = vec![enc::oid(&a).bytes()];
            while v.len() < n {
                let mut b: Vec<i64> = a.iter().map(|x| *x as i64).collect();
                let len = b.len();
                for _ in 0..self.rng.range(1, 2) {
                    let i = self.rng.below(len);
                    let j = self.rng.below(len);
                    let d = *self.rng.pick(&[1i64, 1, -1, 2, -2, 16, 32, 256, 65536]);
                    let m = *self.rng.pick(&MULT);
                    match self.rng.below(6) {
                        0..=2 if i + 1 < len => {
                            b[i] += d;
                            b[i + 1] = if self.rng.chance(1, 2) { b[i + 1] - d * m } else { b[i + 1] ^ (d * m) };
                        }
                        3 => {
                            b[i] += d;
                            b[j] -= d;
                        }
                        4 => b.swap(i, j),
                        5 => {
                            if self.rng.chance(1, 2) || b.len() < 4 {
                                b.insert(i, *self.rng.pick(&[0i64, 1, d.abs()]));
                            } else {
                                b.remove(i);
                            }
                            break;
                        }
                        _ => b[i] ^= d.abs(),
                    }
                }
                let ok = b.len() >= 2
                    && b.iter().all(|x| (0..(1 << 28) - 80).contains(x))
                    && b[0] <= 2
                    && (b[0] == 2 || b[1] < 40);
                let b: Vec<u64> = b.iter().map(|x| *x as u64).collect();
                if ok {
                    v.push(enc::oid(&b).bytes());
                } else if self.rng.chance(1, 20) {
                    v.push(enc::oid(&a).bytes());
                }
            }
            return v;
        }
        if self.rng.chance(1, 6) {
            // certificates that agree in almost everything
            let c = self.cert().tree().bytes();
            v = vec![c.clone()];
            while v.len() < n.min(12) {
                let mut b = c.clone();
                for _ in 0..self.rng.range(1, 3) {
                    let i = self.rng.below(b.len());
                    b[i] = b[i].wrapping_add(*self.rng.pick(&[1u8, 255, 2, 32, 128]));
                }
                v.push(b);
            }
            return v;
        }
        let k = *self.rng.pick(&crate::der_ref::KINDS);
        let t = self.primitive(k).bytes();
        v = vec![t.clone()];
        while v.len() < n {
            let mut b = t.clone();
            let h = 2.min(b.len());
            if b.len() == h {
                b = self.any_primitive().bytes();
            } else {
                let i = self.rng.range(h, b.len() - 1);
                let j = self.rng.range(h, b.len() - 1);
                let d = *self.rng.pick(&[1u8, 1, 255, 2, 16, 32, 128]);
                let m = *self.rng.pick(&MULT) as u8;
                match self.rng.below(6) {
                    0 | 1 if i + 1 < b.len() => {
                        b[i] = b[i].wrapping_add(d);
                        b[i + 1] = b[i + 1].wrapping_sub(d.wrapping_mul(m));
                    }
                    2 => {
                        b[i] ^= d;
                        b[j] ^= d;
                    }
                    3 => b.swap(i, j),
                    4 => b[h..].reverse(),
                    5 => b[0] = *self.rng.pick(&[2u8, 4, 0x0C, 0x13, 0x16, 0x80, 6]),
                    _ => b[i] = b[i].wrapping_add(d),
                }
            }
            v.push(b);
        }
        v
    }

    pub fn time(&mut self) -> u64 {
        match self.rng.below(8) {
            0 => self.rng.u64() % (T_MAX + 1),
            1..=3 => self.rng.u64() % T_2050,
            4 => {
                // around a year, month, day or era boundary
                let y = *self.rng.pick(&[1970i64, 1972, 1999, 2000, 2001, 2004, 2016, 2017, 2049, 2050, 2099, 2100, 2101, 2399, 2400, 9999]);
                let m = self.rng.range(1, 12) as i64;
                let base = cal::days_from_civil(y, m, 1) * 86400;
                let d = self.rng.below(5) as i64 - 2;
                (base + d).clamp(0, T_MAX as i64) as u64
            }
            5 => {
                let y = 1970 + self.rng.below(8030) as i64;
                let base = cal::days_from_civil(y, 3, 1) * 86400;
                (base - 1 - self.rng.below(3 * 86400) as i64).clamp(0, T_MAX as i64) as u64
            }
            6 => *self.rng.pick(&[0, 1, 86399, 86400, T_2050 - 1, T_2050, T_MAX, T_MAX - 1, 4_102_444_800, 951_782_400, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x1_0000_0000]),
            _ => self.rng.u64() % (1 << 33),
        }
    }

    /// a time element of either type that may hold it
    pub fn time_t(&mut self, t: u64, generalized: bool) -> T {
        if generalized || t >= T_2050 {
            T::P(0x18, cal::gen_string(t).into_bytes())
        } else {
            T::P(0x17, cal::utc_string(t).into_bytes())
        }
    }

    pub fn ascii(&mut self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = (0..n).map(|_| 0x20 + self.rng.below(0x5F) as u8).collect();
        if n > 0 && self.rng.chance(1, 8) {
            self.word_into(&mut v);
        }
        v
    }

    /// writes a string the code compared with, or a well-known one, over part of the octets
    pub fn word_into(&mut self, v: &mut Vec<u8>) {
        let w: Vec<u8> = if !self.words.is_empty() && self.rng.chance(2, 3) {
            self.rng.pick(&self.words).clone()
        } else {
            self.rng.pick(&WORDS).as_bytes().to_vec()
        };
        match self.rng.below(5) {
            0 => *v = w,
            1 => {
                v.splice(0..0, w);
            }
            2 => v.extend(w),
            3 => {
                for (a, b) in v.iter_mut().zip(&w) {
                    *a = *b;
                }
            }
            _ => {
                let i = self.rng.below(v.len() + 1);
                for (a, b) in v[i..].iter_mut().zip(&w) {
                    *a = *b;
                }
            }
        }
    }

    pub fn printable(&mut self, n: usize) -> Vec<u8> {
        const S: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?";
        (0..n).map(|_| *self.rng.pick(S)).collect()
    }

    pub fn utf8(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::new();
        for _ in 0..n {
            let c = match self.rng.below(6) {
                0 => *self.rng.pick(&[0u32, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0x0A, 0x0D, 0x09, 0x1B]),
                1 => self.rng.below(0x110000) as u32,
                2 => self.rng.range(0x80, 0x7FF) as u32,
                3 if !self.dict.is_empty() => *self.rng.pick(&self.dict) as u32,
                _ => 0x20 + self.rng.below(0x5F) as u32,
            };
            let c = char::from_u32(c).unwrap_or('z');
            let mut b = [0; 4];
            v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        }
        v
    }

    pub fn int_contents(&mut self) -> Vec<u8> {
        match self.rng.below(8) {
            0 => enc::int_contents(self.rng.below(256) as i128 - 128),
            1 => enc::int_contents(self.rng.u64() as u32 as i32 as i128),
            2 => {
                let e = self.rng.below(40) as u32;
                let v = 1i128 << e;
                let d = self.rng.below(5) as i128 - 2;
                enc::int_contents(if self.rng.chance(1, 2) { v + d } else { -v + d })
            }
            3 => enc::int_contents(self.rng.u64() as i64 as i128),
            4 if !self.dict.is_empty() => {
                let v = *self.rng.pick(&self.dict) as i64 as i128;
                enc::int_contents(if self.rng.chance(1, 4) { -v } else { v })
            }
            5 => enc::int_contents(self.rng.below(1000) as i128),
            _ => {
                let n = self.rng.range(1, 24);
                let mut b = self.rng.bytes(n);
                if !crate::der_ref::int_minimal(&b) {
                    b[0] ^= 0x55;
                }
                b
            }
        }
    }

    /// (unused, octets) with zero padding
    pub fn bit_string(&mut self) -> (u8, Vec<u8>) {
        let n = self.size();
        let mut b = self.rng.bytes(n);
        let unused = if n == 0 || self.rng.chance(1, 2) { 0 } else { self.rng.below(8) as u8 };
        if let Some(l) = b.last_mut() {
            *l &= 0xFFu8 << unused;
        }
        (unused, b)
    }

    /// a well-formed primitive of the given kind
    pub fn primitive(&mut self, k: Kind) -> T {
        let n = self.size();
        match k {
            Kind::Bool => enc::boolean(self.rng.chance(1, 2)),
            Kind::Int => T::P(2, self.int_contents()),
            Kind::Bits => {
                let (u, b) = self.bit_string();
                enc::bits(u, &b)
            }
            Kind::Octets => T::P(4, self.rng.bytes(n)),
            Kind::Null => T::P(5, vec![]),
            Kind::Oid => enc::oid(&self.arcs()),
            Kind::Utf8 => T::P(0x0C, self.utf8(n)),
            Kind::Printable => T::P(0x13, self.printable(n)),
            Kind::Ia5 => T::P(0x16, (0..n).map(|_| self.rng.byte() & 0x7F).collect()),
            Kind::Utc => {
                let t = self.time() % T_2050;
                self.time_t(t, false)
            }
            Kind::Gen => {
                let t = self.time();
                self.time_t(t, true)
            }
            Kind::Ctx => T::P(0x80 | self.rng.below(31) as u8, self.rng.bytes(n)),
            Kind::Seq => enc::seq(vec![]),
            Kind::Set => enc::set(vec![]),
        }
    }

    pub fn any_primitive(&mut self) -> T {
        let k = *self.rng.pick(&crate::der_ref::KINDS);
        self.primitive(k)
    }

    /// a well-formed tree
    pub fn tree(&mut self, depth: usize, budget: &mut usize) -> T {
        *budget = budget.saturating_sub(1);
        if depth == 0 || *budget == 0 || self.rng.chance(2, 5) {
            return self.any_primitive();
        }
        let n = self.small();
        let mut kids = Vec::new();
        for _ in 0..n {
            if *budget == 0 {
                break;
            }
            kids.push(self.tree(depth - 1, budget));
        }
        match self.rng.below(5) {
            0 | 1 => enc::seq(kids),
            2 => enc::set(kids),
            3 => enc::ctx(self.rng.below(31) as u8, kids),
            _ => enc::wrap_octets(kids),
        }
    }

    pub fn forest(&mut self) -> Vec<T> {
        let mut budget = *self.rng.pick(&[3usize, 8, 20, 60]);
        let depth = *self.rng.pick(&[1usize, 2, 4, 8, 12]);
        let n = 1 + self.rng.below(3);
        (0..n).map(|_| self.tree(depth, &mut budget)).collect()
    }

    /// malformed or borderline contents for a kind
    pub fn odd_contents(&mut self, k: Kind) -> Vec<u8> {
        match (k, self.rng.below(4)) {
            (_, 0) => {
                let n = self.rng.below(4);
                self.rng.bytes(n)
            }
            (Kind::Utc | Kind::Gen, _) => {
                let g = k == Kind::Gen;
                let t = self.time();
                let s = if g { cal::gen_string(t) } else { cal::utc_string(t) };
                self.odd_time(s.into_bytes())
            }
            (Kind::Oid, _) => self.odd_oid(),
            (Kind::Bits, _) => {
                let (_, b) = self.bit_string();
                let mut c = vec![self.rng.below(12) as u8];
                c.extend(b);
                c
            }
            (Kind::Bool, _) => {
                let n = self.rng.below(3);
                self.rng.bytes(n)
            }
            (Kind::Utf8 | Kind::Printable | Kind::Ia5, _) => {
                let n = self.rng.range(1, 12);
                let mut s = self.utf8(n);
                if !s.is_empty() {
                    let i = self.rng.below(s.len());
                    match self.rng.below(3) {
                        0 => s[i] = self.rng.byte(),
                        1 => {
                            s.remove(i);
                        }
                        _ => {
                            let frag: &[u8] = *self.rng.pick(&[
                                &[0xC0u8, 0x80][..],
                                &[0xC1, 0xBF],
                                &[0xE0, 0x80, 0x80],
                                &[0xED, 0xA0, 0x80],
                                &[0xF4, 0x90, 0x80, 0x80],
                                &[0xF0, 0x80, 0x80, 0x80],
                                &[0xF5, 0x80, 0x80, 0x80],
                                &[0xFF],
                                &[0xFE],
                                &[0x80],
                                &[0xE2, 0x82],
                                &[0xC3],
                            ]);
                            s.splice(i..i, frag.iter().copied());
                        }
                    }
                }
                s
            }
            (Kind::Int, _) => {
                let mut v = self.int_contents();
                if self.rng.chance(1, 2) {
                    v.insert(0, *self.rng.pick(&[0u8, 0xFF]));
                } else {
                    v.clear();
                }
                v
            }
            _ => {
                let n = self.size();
                self.rng.bytes(n)
            }
        }
    }

    pub fn odd_time(&mut self, mut s: Vec<u8>) -> Vec<u8> {
        for _ in 0..self.rng.range(1, 2) {
            let n = s.len();
            match self.rng.below(9) {
                0 if n > 0 => {
                    s.remove(self.rng.below(n));
                }
                1 => {
                    let i = self.rng.below(n + 1);
                    let b = *self.rng.pick(b"0123456789Zz+-. :");
                    s.insert(i, b);
                }
                2 if n > 0 => {
                    let i = self.rng.below(n);
                    s[i] = *self.rng.pick(b"0123456789Zz+-. :/\x00\xff");
                }
                3 if n >= 2 => {
                    // any pair of digits
                    let i = self.rng.below(n / 2) * 2;
                    let v = self.rng.below(100);
                    s[i] = b'0' + (v / 10) as u8;
                    if i + 1 < n {
                        s[i + 1] = b'0' + (v % 10) as u8;
                    }
                }
                4 => s.extend_from_slice(*self.rng.pick(&[&b"Z"[..], b"0", b"\x00", b"+0000", b" "])),
                5 if n > 0 => {
                    s.truncate(n - 1);
                    s.extend_from_slice(*self.rng.pick(&[&b"+0000"[..], b"-0500", b"z", b".5Z", b",0Z", b""]));
                }
                6 if n > 2 => {
                    s.drain(n - 3..n - 1); // no seconds
                }
                7 if n >= 5 => {
                    // month and day fields
                    let i = n - 11 + self.rng.below(2) * 2;
                    if i + 1 < n {
                        let v = self.rng.below(40);
                        s[i] = b'0' + (v / 10) as u8;
                        s[i + 1] = b'0' + (v % 10) as u8;
                    }
                }
                _ => s.truncate(self.rng.below(n + 1)),
            }
            if s.len() < 11 {
                break;
            }
        }
        s
    }

    pub fn odd_oid(&mut self) -> Vec<u8> {
        let a = self.arcs();
        let mut c = enc::oid_contents(&a);
        match self.rng.below(6) {
            0 => {
                let n = c.len();
                c[n - 1] |= 0x80;
            }
            1 => {
                // padding in front of a subidentifier
                let mut starts = vec![0];
                for i in 1..c.len() {
                    if c[i - 1] & 0x80 == 0 {
                        starts.push(i);
                    }
                }
                let i = *self.rng.pick(&starts);
                c.insert(i, 0x80);
            }
            2 => {
                // a large subidentifier
                let big = match self.rng.below(3) {
                    0 => (1u64 << 28) + self.rng.below(5) as u64,
                    1 => (1u64 << 32) - 3 + self.rng.below(6) as u64,
                    _ => self.rng.u64() >> self.rng.below(36),
                };
                let tail = enc::oid_contents(&[0, 0, big]);
                c.extend_from_slice(&tail[1..]);
            }
            3 => {
                let n = c.len();
                c.truncate(self.rng.below(n));
            }
            4 => {
                let i = self.rng.below(c.len());
                c[i] = self.rng.byte();
            }
            _ => {
                let n = self.rng.range(1, 10);
                c = self.rng.bytes(n);
            }
        }
        c
    }
}

// ---------------------------------------------------------------------------------------
// names

#[derive(Clone, Debug)]
pub struct Ava {
    pub arcs: Vec<u64>,
    pub value: T,
}
pub type NameSpec = Vec<Vec<Ava>>;

/// index in [C, ST, L, O, OU, CN]
pub fn component(arcs: &[u64]) -> Option<usize> {
    match arcs {
        [2, 5, 4, 6] => Some(0),
        [2, 5, 4, 8] => Some(1),
        [2, 5, 4, 7] => Some(2),
        [2, 5, 4, 10] => Some(3),
        [2, 5, 4, 11] => Some(4),
        [2, 5, 4, 3] => Some(5),
        _ => None,
    }
}

impl Gen {
    pub fn string_t(&mut self) -> T {
        let n = self.size();
        match self.rng.below(3) {
            0 => T::P(0x0C, self.utf8(n)),
            1 => T::P(0x13, self.printable(n)),
            _ => T::P(0x16, self.ascii(n)),
        }
    }

    /// a decodable name: each supported attribute at most once
    pub fn name(&mut self) -> NameSpec {
        let mut attrs: Vec<Vec<u64>> = Vec::new();
        for last in [6u64, 8, 7, 10, 11, 3] {
            if self.rng.chance(1, 2) {
                attrs.push(vec![2, 5, 4, last]);
            }
        }
        for _ in 0..self.rng.below(3) {
            let a = loop {
                let a = self.arcs();
                if component(&a).is_none() {
                    break a;
                }
            };
            attrs.push(a);
        }
        if self.rng.chance(2, 3) {
            self.rng.shuffle(&mut attrs);
        }
        let mut name: NameSpec = Vec::new();
        for arcs in attrs {
            let value = if component(&arcs).is_some() {
                self.string_t()
            } else if self.rng.chance(1, 2) {
                self.string_t()
            } else {
                self.any_primitive()
            };
            let ava = Ava { arcs, value };
            if !name.is_empty() && self.rng.chance(1, 4) {
                name.last_mut().unwrap().push(ava);
            } else {
                name.push(vec![ava]);
            }
        }
        // SET OF is sorted in DER
        for rdn in &mut name {
            rdn.sort_by_key(|a| ava_t(a).bytes());
        }
        name
    }
}

pub fn ava_t(a: &Ava) -> T {
    enc::seq(vec![enc::oid(&a.arcs), a.value.clone()])
}
pub fn name_kids(n: &NameSpec) -> Vec<T> {
    n.iter().map(|rdn| enc::set(rdn.iter().map(ava_t).collect())).collect()
}

// ---------------------------------------------------------------------------------------
// extensions

#[derive(Clone, Debug)]
pub enum ExtVal {
    Ski(Vec<u8>),
    Ku(u8, Vec<u8>),
    San(Vec<(u8, Vec<u8>)>),
    Bc(Option<bool>, Option<i128>),
    Eku(Vec<Vec<u64>>),
    Modbus(Vec<u8>),
    Unknown(Vec<u64>, Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct ExtSpec {
    pub critical: bool,
    pub val: ExtVal,
}

impl ExtVal {
    pub fn arcs(&self) -> Vec<u64> {
        match self {
            ExtVal::Ski(_) => EXT_OIDS[0].to_vec(),
            ExtVal::Ku(..) => EXT_OIDS[1].to_vec(),
            ExtVal::San(_) => EXT_OIDS[2].to_vec(),
            ExtVal::Bc(..) => EXT_OIDS[3].to_vec(),
            ExtVal::Eku(_) => EXT_OIDS[4].to_vec(),
            ExtVal::Modbus(_) => EXT_OIDS[5].to_vec(),
            ExtVal::Unknown(a, _) => a.clone(),
        }
    }
    /// what the octet string holds
    pub fn content(&self) -> Vec<T> {
        vec![match self {
            ExtVal::Ski(b) => T::P(4, b.clone()),
            ExtVal::Ku(u, b) => enc::bits(*u, b),
            ExtVal::San(names) => enc::seq(names.iter().map(|(k, b)| T::P(0x80 | k, b.clone())).collect()),
            ExtVal::Bc(ca, len) => {
                let mut k = Vec::new();
                if let Some(ca) = ca {
                    k.push(enc::boolean(*ca));
                }
                if let Some(l) = len {
                    k.push(enc::int(*l));
                }
                enc::seq(k)
            }
            ExtVal::Eku(p) => enc::seq(p.iter().map(|a| enc::oid(a)).collect()),
            ExtVal::Modbus(s) => T::P(0x0C, s.clone()),
            ExtVal::Unknown(_, raw) => T::Raw(raw.clone()),
        }]
    }
}
pub fn ext_t(e: &ExtSpec) -> T {
    let mut k = vec![enc::oid(&e.val.arcs())];
    if e.critical {
        k.push(enc::boolean(true));
    }
    k.push(enc::wrap_octets(e.val.content()));
    enc::seq(k)
}
pub fn ext_list_t(es: &[ExtSpec]) -> T {
    enc::seq(es.iter().map(ext_t).collect())
}

impl Gen {
    /// an address, often of a well-known kind
    pub fn address(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.rng.bytes(n);
        if self.rng.chance(1, 2) {
            let p: &[u8] = *self.rng.pick(&[
                &[0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xFF][..],
                &[0; 16],
                &[0xFF; 16],
                &[0; 12],
                &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
                &[0xFE, 0x80, 0, 0, 0, 0, 0, 0],
                &[0x20, 1, 0x0D, 0xB8],
                &[0, 0x64, 0xFF, 0x9B, 0, 0, 0, 0, 0, 0, 0, 0],
                &[127, 0, 0, 1],
                &[10],
                &[192, 168],
                &[169, 254],
                &[224, 0, 0, 1],
                &[0],
            ]);
            for (a, b) in v.iter_mut().zip(p) {
                *a = *b;
            }
        }
        v
    }
    pub fn san_name(&mut self) -> (u8, Vec<u8>) {
        let n = self.size();
        match *self.rng.pick(&[1u8, 2, 2, 6, 7, 8]) {
            7 => {
                let l = *self.rng.pick(&[4usize, 16]);
                (7, self.address(l))
            }
            8 => (8, enc::oid_contents(&self.arcs())),
            k => (k, self.ascii(n.max(1))),
        }
    }

    /// a decodable value of one of the known kinds, or an unknown extension
    pub fn ext_val(&mut self, kind: usize) -> ExtVal {
        match kind {
            0 => {
                let n = self.size();
                ExtVal::Ski(self.rng.bytes(n))
            }
            1 => {
                let bits = self.rng.range(0, 12);
                let n = (bits + 7) / 8;
                let u = (n * 8 - bits) as u8;
                let mut b = self.rng.bytes(n);
                if let Some(l) = b.last_mut() {
                    *l &= 0xFF << u;
                }
                ExtVal::Ku(u, b)
            }
            2 => {
                let n = 1 + self.small();
                ExtVal::San((0..n).map(|_| self.san_name()).collect())
            }
            3 => {
                let ca = self.rng.chance(2, 3);
                let len = (ca && self.rng.chance(1, 2)).then(|| match self.rng.below(4) {
                    0 => self.rng.below(4) as i128,
                    1 => self.rng.below(256) as i128,
                    2 => (self.rng.u64() as u32 >> 1) as i128,
                    _ => *self.rng.pick(&[0i128, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777215, 16777216, 2147483647]),
                });
                ExtVal::Bc(ca.then_some(true), len)
            }
            4 => {
                let n = 1 + self.small();
                ExtVal::Eku((0..n).map(|_| self.rng.pick(EKU_OIDS).to_vec()).collect())
            }
            5 => {
                let n = self.size();
                ExtVal::Modbus(self.utf8(n))
            }
            _ => {
                let a = loop {
                    let a = self.arcs();
                    if !EXT_OIDS.contains(&&a[..]) {
                        break a;
                    }
                };
                let raw = if self.rng.chance(1, 2) {
                    let n = self.size();
                    self.rng.bytes(n)
                } else {
                    enc::encode_all(&self.forest())
                };
                ExtVal::Unknown(a, raw)
            }
        }
    }

    pub fn ext(&mut self) -> ExtSpec {
        let k = self.rng.below(8);
        ExtSpec { critical: self.rng.chance(1, 3), val: self.ext_val(k) }
    }

    /// a decodable list without duplicates
    pub fn ext_list(&mut self) -> Vec<ExtSpec> {
        let n = 1 + self.small();
        let mut out: Vec<ExtSpec> = Vec::new();
        let mut seen: Vec<Vec<u64>> = Vec::new();
        for _ in 0..n {
            let e = self.ext();
            let a = e.val.arcs();
            if !seen.contains(&a) {
                seen.push(a);
                out.push(e);
            }
        }
        out
    }
}

// ---------------------------------------------------------------------------------------
// certificates

#[derive(Clone, Debug)]
pub struct CertSpec {
    pub version: u8, // 0, 1, 2
    pub serial: Vec<u8>,
    pub alg: (Vec<u64>, Option<T>),
    pub issuer: NameSpec,
    pub not_before: (u64, bool),
    pub not_after: (u64, bool),
    pub subject: NameSpec,
    pub key_alg: (Vec<u64>, Option<T>),
    pub key: (u8, Vec<u8>),
    pub issuer_uid: Option<(u8, Vec<u8>)>,
    pub subject_uid: Option<(u8, Vec<u8>)>,
    pub exts: Option<Vec<ExtSpec>>,
    pub signature: (u8, Vec<u8>),
}

fn alg_t(a: &(Vec<u64>, Option<T>)) -> T {
    let mut k = vec![enc::oid(&a.0)];
    k.extend(a.1.iter().cloned());
    enc::seq(k)
}

impl CertSpec {
    pub fn tbs_kids(&self) -> Vec<T> {
        let time = |t: &(u64, bool)| {
            if t.1 || t.0 >= T_2050 {
                T::P(0x18, cal::gen_string(t.0).into_bytes())
            } else {
                T::P(0x17, cal::utc_string(t.0).into_bytes())
            }
        };
        let uid = |n: u8, b: &(u8, Vec<u8>)| {
            let mut c = vec![b.0];
            c.extend_from_slice(&b.1);
            T::P(0x80 | n, c)
        };
        let mut k = Vec::new();
        if self.version > 0 {
            k.push(enc::ctx(0, vec![enc::int(self.version as i128)]));
        }
        k.push(T::P(2, self.serial.clone()));
        k.push(alg_t(&self.alg));
        k.push(enc::seq(name_kids(&self.issuer)));
        k.push(enc::seq(vec![time(&self.not_before), time(&self.not_after)]));
        k.push(enc::seq(name_kids(&self.subject)));
        k.push(enc::seq(vec![alg_t(&self.key_alg), enc::bits(self.key.0, &self.key.1)]));
        if let Some(u) = &self.issuer_uid {
            k.push(uid(1, u));
        }
        if let Some(u) = &self.subject_uid {
            k.push(uid(2, u));
        }
        if let Some(e) = &self.exts {
            k.push(enc::ctx(3, vec![ext_list_t(e)]));
        }
        k
    }
    pub fn tree(&self) -> T {
        enc::seq(vec![
            enc::seq(self.tbs_kids()),
            alg_t(&self.alg),
            enc::bits(self.signature.0, &self.signature.1),
        ])
    }
}

impl Gen {
    fn alg(&mut self) -> (Vec<u64>, Option<T>) {
        let a = self.arcs();
        let p = match self.rng.below(6) {
            0 => None,
            1 | 2 => Some(T::P(5, vec![])),
            3 => Some(enc::oid(&self.arcs())),
            4 => {
                let mut b = 8;
                Some(self.tree(3, &mut b))
            }
            _ => Some(self.any_primitive()),
        };
        (a, p)
    }

    /// a well-formed certificate
    pub fn cert(&mut self) -> CertSpec {
        let version = *self.rng.pick(&[0u8, 1, 2, 2, 2, 2]);
        let (t1, t2) = (self.time(), self.time());
        let uid = |g: &mut Gen| (version >= 1 && g.rng.chance(1, 3)).then(|| g.bit_string());
        let mut c = CertSpec {
            version,
            serial: self.int_contents(),
            alg: self.alg(),
            issuer: self.name(),
            not_before: (t1.min(t2), self.rng.chance(1, 3)),
            not_after: (t1.max(t2), self.rng.chance(1, 3)),
            subject: self.name(),
            key_alg: self.alg(),
            key: self.bit_string(),
            issuer_uid: uid(self),
            subject_uid: uid(self),
            exts: None,
            signature: self.bit_string(),
        };
        if version == 2 && self.rng.chance(4, 5) {
            c.exts = Some(self.ext_list());
        }
        c
    }

    /// a certificate around the given extension list octets
    pub fn cert_around_ext(list: &[u8]) -> Vec<u8> {
        let tbs = enc::tlv(
            0x30,
            &[
                &[0xA0, 3, 2, 1, 2, 2, 1, 1][..],
                &[0x30, 5, 6, 3, 0x2B, 0x65, 0x70],
                &[0x30, 0],
                &[0x30, 30],
                &enc::tlv(0x17, b"200101000000Z"),
                &enc::tlv(0x17, b"300101000000Z"),
                &[0x30, 0],
                &[0x30, 10, 0x30, 5, 6, 3, 0x2B, 0x65, 0x70, 3, 1, 0],
                &enc::tlv(0xA3, list),
            ]
            .concat(),
        );
        enc::tlv(0x30, &[&tbs[..], &[0x30, 5, 6, 3, 0x2B, 0x65, 0x70, 3, 1, 0]].concat())
    }
}
