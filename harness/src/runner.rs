//! Runs inputs under the monitors, keeps findings, and drives coverage-guided generation.

use crate::built;
use crate::cov;
use crate::der_eval;
use crate::enc;
use crate::gen::{self, Gen};
use crate::more_eval;
use crate::mutate;
use crate::rep::{c, Rep};
use crate::rng::Rng;
use crate::x509_eval;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub type Eval = usize;
pub const DER: Eval = 0;
pub const CERT: Eval = 1;
pub const NAME: Eval = 2;
pub const EXT: Eval = 3;
pub const TYPED: Eval = 4;
pub const PURE: Eval = 5;
pub const WORK: Eval = 6;
pub const IDENT: Eval = 7;
pub const CLOCK: Eval = 8;
pub const HISTORY: Eval = 9;
pub const HUGE: Eval = 10;
pub const MEMO: Eval = 11;
pub const EQUAL: Eval = 12;
pub const BUILT: Eval = 13;
pub const OFTEN: Eval = 14;
pub const EVALS: [(&str, fn(&[u8], &mut Rep) -> bool); 15] = [
    ("der", der_eval::walk),
    ("cert", x509_eval::cert),
    ("name", x509_eval::name),
    ("ext", x509_eval::ext),
    ("typed", more_eval::typed),
    ("pure", more_eval::pure),
    ("work", more_eval::work),
    ("ident", more_eval::ident),
    ("clock", more_eval::clock),
    ("history", more_eval::history),
    ("huge", more_eval::huge),
    ("memo", more_eval::memo),
    ("equal", more_eval::equal),
    ("built", built::built),
    ("often", more_eval::often),
];

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
    }));
}
pub fn take_panic() -> String {
    PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

pub struct Found {
    pub eval: Eval,
    pub input: Vec<u8>,
    pub what: String,
}

pub struct Opts {
    pub prop: u32,
    pub seed: u64,
    pub worker: usize,
    pub workers: usize,
    pub thorough: bool,
    pub secs: u64,
    pub ops: u64,
    pub flavour: String,
}

pub struct Runner {
    pub o: Opts,
    pub rep: Rep,
    pub g: Gen,
    pub found: Vec<Found>,
    pub corpus: Vec<(Eval, Vec<u8>)>,
    features: Vec<u8>,
    pub nfeatures: usize,
    pub start: Instant,
    turn: u64,
    pub timed_out: bool,
    pub samples: Vec<(String, Vec<u8>)>,
    pub phase: &'static str,
    dict_seen: HashSet<u64>,
    pending: Vec<(Eval, Vec<u8>)>,
    chased: HashMap<u64, u32>,
    /// hash of everything observed about common inputs, to compare across processes
    pub digests: Vec<(u64, Vec<u8>)>,
}

impl Runner {
    pub fn new(o: Opts) -> Runner {
        let g = Gen::new(Rng::new(o.seed, o.worker as u64 + 1000 * o.prop as u64));
        let rep = Rep::new(c(o.prop));
        Runner {
            o,
            rep,
            g,
            found: vec![],
            corpus: vec![],
            features: vec![0; cov::MAP * 8],
            nfeatures: 0,
            start: Instant::now(),
            turn: 0,
            timed_out: false,
            samples: vec![],
            phase: "start",
            dict_seen: HashSet::new(),
            pending: vec![],
            chased: HashMap::new(),
            digests: vec![],
        }
    }

    /// this worker's share of an enumeration
    pub fn mine(&mut self) -> bool {
        self.turn += 1;
        (self.turn - 1) % self.o.workers as u64 == self.o.worker as u64
    }

    pub fn stop(&mut self) -> bool {
        if self.found.len() >= 4 {
            return true;
        }
        if self.rep.evals % 64 == 0 && self.start.elapsed() > Duration::from_secs(self.o.secs) {
            self.timed_out = true;
        }
        self.timed_out
    }

    /// evaluates one input, and those that hold what it was compared with; true if it showed new
    /// behaviour
    pub fn run(&mut self, eval: Eval, input: &[u8]) -> bool {
        let fresh = self.run_one(eval, input);
        if matches!(eval, OFTEN | HUGE | HISTORY | MEMO) {
            self.pending.clear();
        }
        let mut turns = 0;
        while let Some((e, i)) = self.pending.pop() {
            turns += 1;
            if turns > 64 || self.found.len() >= 4 {
                self.pending.clear();
                break;
            }
            self.rep.count("inputs that hold what their predecessor was compared with");
            if self.run_one(e, &i) && self.corpus.len() < 30_000 {
                self.corpus.push((e, i));
            }
        }
        fresh
    }

    fn run_one(&mut self, eval: Eval, input: &[u8]) -> bool {
        // an exactly sized heap block of its own: reads outside are visible to the sanitizer
        let input: Box<[u8]> = input.into();
        let shapes = self.rep.shapes.len();
        self.rep.begin_input();
        cov::STEP_LIMIT.store(20_000 * input.len() as u64 + 2_000_000, Relaxed);
        cov::begin(&input, eval);
        cov::ACTIVE.store(true, Relaxed);
        let watched = self.o.prop == 30;
        let before: Vec<u8> = if watched { input.to_vec() } else { vec![] };
        let mut calls = vec![];
        let mut evaluate = || catch_unwind(AssertUnwindSafe(|| (EVALS[eval].1)(&input, &mut self.rep)));
        let r = if watched {
            let (r, seen) = crate::ambient::watch(evaluate);
            calls = seen;
            r
        } else {
            evaluate()
        };
        cov::ACTIVE.store(false, Relaxed);
        cov::STEP_LIMIT.store(u64::MAX, Relaxed);
        if r.is_err() {
            let p = take_panic();
            self.rep.misses.push(crate::rep::Miss { what: format!("panic: {p}") });
        }
        if watched {
            self.rep.count("evaluations watched for calls out of the library");
            if !calls.is_empty() {
                self.rep.miss(c(30), || format!("calls into the system: {calls:?}"));
            }
            if before[..] != input[..] {
                self.rep.miss(c(30), || "the input was changed".into());
            }
            if !crate::ambient::hook_in_place() {
                self.rep.miss(c(30), || "the process' panic hook was replaced".into());
            }
        }
        self.rep.end_input(&input);
        if !self.rep.misses.is_empty() {
            let what = self.rep.misses.iter().map(|m| m.what.clone()).collect::<Vec<_>>().join("; ");
            self.rep.misses.clear();
            if self.found.len() < 8 {
                self.found.push(Found { eval, input: input.to_vec(), what });
            }
        }
        if self.samples.len() < 6 && self.rep.nontrivial && input.len() > 3 && input.len() < 600 && self.rep.evals % 37 == 1 {
            self.samples.push((format!("{} ({})", EVALS[eval].0, self.phase), input.to_vec()));
        }
        let mut fresh = self.rep.shapes.len() > shapes;
        let mut f = Vec::new();
        cov::take_features(&mut f);
        for x in f {
            let slot = &mut self.features[x as usize];
            if *slot == 0 {
                *slot = 1;
                self.nfeatures += 1;
                fresh = true;
            }
        }
        let mut cmps = Vec::new();
        cov::take_cmps(&mut cmps);
        for &(a, b, constant) in &cmps {
            if self.g.dict.len() < 4096 {
                for v in [a, b] {
                    // octet values are tried anyway
                    if v > 12 && v < 1 << 40 && self.dict_seen.len() < 100_000 && self.dict_seen.insert(v) {
                        self.g.dict.push(v);
                    }
                }
            }
            if constant && a > 3 && self.pending.len() < 8 && input.len() < 6000 {
                let tries = self.chased.entry(a).or_insert(0);
                if *tries < 40 {
                    *tries += 1;
                    chase(&input, eval, b, a, &mut self.pending);
                }
            }
        }
        if self.dict_seen.len() < 200_000 {
            let (g, seen) = (&mut self.g, &mut self.dict_seen);
            let pending = &mut self.pending;
            cov::take_words(|a, b| {
                for (from, to) in [(a, b), (b, a)] {
                    let h = crate::rep::hash(to) | 1 << 63;
                    if seen.len() < 200_000 && !seen.contains(&h) && !input.windows(to.len()).any(|x| x == to) {
                        seen.insert(h);
                        if g.words.len() < 2048 {
                            g.words.push(to.to_vec());
                        }
                        // what was compared with it, in its place
                        if pending.len() < 16 && input.len() < 6000 {
                            for at in 0..input.len().saturating_sub(from.len() - 1) {
                                if &input[at..at + from.len()] == from && pending.len() < 16 {
                                    let mut other = input.to_vec();
                                    other[at..at + to.len()].copy_from_slice(to);
                                    pending.push((eval, other));
                                }
                            }
                        }
                    }
                }
            });
        }
        fresh
    }

    pub fn seed(&mut self, eval: Eval, input: Vec<u8>) {
        let fresh = self.run(eval, &input);
        if fresh && input.len() < 6000 && self.corpus.len() < 30_000 {
            self.corpus.push((eval, input));
        }
    }

    /// random generation and mutation, keeping what shows new behaviour
    pub fn guided(&mut self, sources: &[Src], ops: u64) {
        self.phase = "guided";
        let end = self.rep.evals + ops;
        while self.rep.evals < end && !self.stop() {
            let (eval, input) = if self.corpus.is_empty() || self.g.rng.chance(2, 5) {
                let s = *self.g.rng.pick(sources);
                let (e, mut i) = self.g.source(s);
                if self.g.rng.chance(1, 2) {
                    i = mutate::mutate(&i, &[], &mut self.g);
                }
                (e, i)
            } else {
                // recent entries more often
                let n = self.corpus.len();
                let k = if self.g.rng.chance(1, 2) { self.g.rng.range(n - n.min(50), n - 1) } else { self.g.rng.below(n) };
                let j = self.g.rng.below(n);
                let (e, a) = self.corpus[k].clone();
                let b = self.corpus[j].1.clone();
                (e, mutate::mutate(&a, &b, &mut self.g))
            };
            if input.len() <= 20_000 {
                self.seed(eval, input);
            }
        }
    }

    /// every structural edit at every node of an input
    pub fn edits(&mut self, eval: Eval, input: &[u8], rounds: usize) {
        self.phase = "every edit of every node";
        let ts = enc::parse_tree(input, 24);
        let n = enc::count_all(&ts);
        for node in 0..n {
            for op in 0..mutate::OPS {
                for _ in 0..rounds {
                    let mut t = ts.clone();
                    if mutate::edit(&mut t, node, op, &mut self.g) {
                        let b = enc::encode_all(&t);
                        self.run(eval, &b);
                    }
                }
                if self.stop() {
                    return;
                }
            }
        }
    }

    /// every prefix, and every single-octet change
    pub fn octets(&mut self, eval: Eval, input: &[u8]) {
        self.phase = "every prefix and single octet change";
        for i in 0..input.len() {
            self.run(eval, &input[..i]);
            let mut b = input.to_vec();
            for v in [b[i] ^ 1, b[i] ^ 0x80, b[i] ^ 0x20, b[i].wrapping_add(1), b[i].wrapping_sub(1), 0, 0xFF] {
                let old = b[i];
                b[i] = v;
                self.run(eval, &b);
                b[i] = old;
            }
            if self.stop() {
                return;
            }
        }
    }
}

/// the inputs that have `to` where this one may have had `from` compared with it: as a number,
/// as an arc, and as the size of an element
fn chase(input: &[u8], eval: Eval, from: u64, to: u64, out: &mut Vec<(Eval, Vec<u8>)>) {
    fn big(v: u64, n: usize) -> Option<Vec<u8>> {
        (n == 8 || v >> (8 * n) == 0).then(|| v.to_be_bytes()[8 - n..].to_vec())
    }
    fn base128(v: u64) -> Vec<u8> {
        let mut o = vec![(v & 0x7F) as u8];
        let mut v = v >> 7;
        while v > 0 {
            o.insert(0, 0x80 | (v & 0x7F) as u8);
            v >>= 7;
        }
        o
    }
    // the value of an integer, whatever its size
    if from < 1 << 32 && to < 1 << 32 {
        let ts = enc::parse_tree(input, 24);
        let most = out.len() + 4;
        for n in 0..enc::count_all(&ts) {
            let mut ts = ts.clone();
            let Some((v, i)) = mutate::locate(&mut ts, n) else { continue };
            let enc::T::P(2, c) = &mut v[i] else { continue };
            if c.is_empty() || c.len() > 4 || out.len() >= most {
                continue;
            }
            let value = c.iter().fold(if c[0] & 0x80 != 0 { -1i32 } else { 0 }, |a, b| a << 8 | *b as i32);
            if value as u32 as u64 == from {
                *c = enc::int_contents(to as u32 as i32 as i128);
                out.push((eval, enc::encode_all(&ts)));
            }
        }
    }
    let most = out.len() + 8;
    let mut swap = |x: &[u8], y: &[u8]| {
        if x.len() == y.len() {
            for at in (0..input.len()).rev() {
                if out.len() < most && input[at..].starts_with(x) {
                    let mut other = input.to_vec();
                    other[at..at + y.len()].copy_from_slice(y);
                    out.push((eval, other));
                }
            }
            return;
        }
        let ts = enc::parse_tree(input, 24);
        for n in (0..enc::count_all(&ts)).rev() {
            let mut ts = ts.clone();
            let Some((v, i)) = mutate::locate(&mut ts, n) else { continue };
            if let enc::T::P(_, c) = &mut v[i] {
                if let Some(at) = c.windows(x.len()).rposition(|w| w == x) {
                    if out.len() < most {
                        c.splice(at..at + x.len(), y.iter().copied());
                        out.push((eval, enc::encode_all(&ts)));
                    }
                }
            }
        }
    };
    for n in 1..=5 {
        if let (Some(x), Some(y)) = (big(from, n), big(to, n)) {
            if n > 1 || (from > 12 && from < 256) {
                swap(&x, &y);
            }
        }
    }
    // octets compared as one word
    for n in [2usize, 4, 8] {
        if let (Some(x), Some(y)) = (big(from, n), big(to, n)) {
            if from > 255 && to > 255 {
                swap(&x.into_iter().rev().collect::<Vec<_>>(), &y.into_iter().rev().collect::<Vec<_>>());
            }
        }
    }
    // characters
    if from > 31 && to > 127 {
        if let (Some(x), Some(y)) = (u32::try_from(from).ok().and_then(char::from_u32), u32::try_from(to).ok().and_then(char::from_u32)) {
            swap(x.to_string().as_bytes(), y.to_string().as_bytes());
        }
    }
    if from < 1 << 32 && to < 1 << 32 && (from >= 40 || to >= 40) {
        swap(&base128(from), &base128(to));
    }
    if from < 6000 && to < 6000 {
        for size in [to as usize, to as usize + 1] {
            let mut ts = enc::parse_tree(input, 24);
            for n in 0..enc::count_all(&ts) {
                if let Some((v, i)) = mutate::locate(&mut ts, n) {
                    if let enc::T::P(_, c) = &mut v[i] {
                        if c.len() as u64 == from && size != c.len() && !c.is_empty() {
                            // more of the same
                            let old = c.clone();
                            *c = old.iter().cycle().take(size).copied().collect();
                            out.push((eval, enc::encode_all(&ts)));
                            break;
                        }
                    }
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Src {
    Forest,
    /// an element of the given kind, alone or among others
    Prim(crate::der_ref::Kind),
    Cert,
    Name,
    /// an extension of the given kind (index into gen::EXT_OIDS; 6 = unknown)
    Ext(usize),
    AnyExt,
    ExtList,
    Element,
    /// elements that resemble each other, packed
    Family(Eval),
    /// any input, for the evaluators that take anything
    Any(Eval),
    Raw(Eval),
    /// arguments of constructors
    Built,
}

impl Gen {
    pub fn ext_contents(&mut self, kind: usize) -> Vec<u8> {
        let v = self.ext_val(kind);
        let e = gen::ExtSpec { critical: self.rng.chance(1, 3), val: v };
        match gen::ext_t(&e) {
            enc::T::C(_, _, k) => enc::encode_all(&k),
            _ => unreachable!(),
        }
    }
    pub fn ext_cert(&mut self) -> Vec<u8> {
        let l = self.ext_list();
        Gen::cert_around_ext(&gen::ext_list_t(&l).bytes())
    }
    pub fn source(&mut self, s: Src) -> (Eval, Vec<u8>) {
        match s {
            Src::Forest => (DER, enc::encode_all(&self.forest())),
            Src::Prim(k) => {
                let t = if self.rng.chance(1, 2) {
                    self.primitive(k)
                } else {
                    enc::T::P(if k == crate::der_ref::Kind::Ctx { 0x80 } else { k.id_octet() }, self.odd_contents(k))
                };
                let mut ts = vec![t];
                if self.rng.chance(1, 4) {
                    let p = self.primitive(k);
                    ts.push(p);
                }
                if self.rng.chance(1, 4) {
                    let a = self.any_primitive();
                    ts.insert(0, a);
                }
                if self.rng.chance(1, 4) {
                    let b = self.any_primitive();
                    ts.push(b);
                }
                if self.rng.chance(1, 4) {
                    let d = self.rng.range(1, 4);
                    for _ in 0..d {
                        ts = vec![match self.rng.below(3) {
                            0 => enc::seq(ts),
                            1 => enc::set(ts),
                            _ => enc::ctx(self.rng.below(31) as u8, ts),
                        }];
                    }
                }
                (DER, enc::encode_all(&ts))
            }
            Src::Cert => (CERT, self.cert().tree().bytes()),
            Src::Name => (NAME, enc::encode_all(&gen::name_kids(&self.name()))),
            Src::Ext(k) => {
                let b = self.ext_contents(k);
                (EXT, b)
            }
            Src::AnyExt => {
                let k = self.rng.below(8);
                (EXT, self.ext_contents(k))
            }
            Src::ExtList => (CERT, self.ext_cert()),
            Src::Element => {
                let mut b = 20;
                let t = if self.rng.chance(2, 3) { self.any_primitive() } else { self.tree(4, &mut b) };
                (TYPED, t.bytes())
            }
            Src::Family(e) => {
                let n = self.rng.range(2, 12);
                let mut f = self.family(n);
                f.retain(|x| x.len() < 2000);
                (e, crate::props::pack_history(&f))
            }
            Src::Any(e) => {
                let s = *self.rng.pick(&[Src::Forest, Src::Cert, Src::Name, Src::AnyExt, Src::ExtList, Src::Forest, Src::Cert]);
                (e, self.source(s).1)
            }
            Src::Built => {
                let kind = self.rng.below(9) as u8;
                let mut v = vec![kind];
                match kind {
                    5 => {
                        let part = |g: &mut Gen, b: &[u8], v: &mut Vec<u8>| {
                            if b.len() < 255 {
                                v.push(b.len() as u8);
                                v.extend(b);
                            } else {
                                let b = g.rng.bytes(17);
                                v.push(17);
                                v.extend(b);
                            }
                        };
                        let few = |g: &mut Gen| {
                            let n = g.rng.below(24);
                            g.rng.bytes(n)
                        };
                        let b = few(self);
                        part(self, &b, &mut v);
                        v.push(self.rng.byte());
                        let b = few(self);
                        part(self, &b, &mut v);
                        for _ in 0..2 {
                            // an algorithm without parameters, a name, and the two times or the key's algorithm
                            v.extend([self.rng.below(128) as u8, 9, 0]);
                            let b = enc::encode_all(&gen::name_kids(&self.name()));
                            part(self, &b, &mut v);
                            for _ in 0..2 {
                                let t = match self.rng.below(8) {
                                    0..=2 => 0,
                                    3 => 1,
                                    4 => *self.rng.pick(&[u64::MAX, 1 << 31, 1 << 32, 253_402_300_799, 2_524_608_000]),
                                    5 => self.rng.below(1 << 31) as u64,
                                    _ => u64::from_be_bytes(self.rng.bytes(8).try_into().unwrap()),
                                };
                                v.extend(t.to_be_bytes());
                            }
                        }
                        for _ in 0..6 {
                            v.push(self.rng.byte());
                            let b = few(self);
                            part(self, &b, &mut v);
                        }
                    }
                    8 => v.extend(self.cert().tree().bytes()),
                    _ => {
                        let n = self.size();
                        let small = self.rng.chance(2, 3);
                        for _ in 0..n {
                            let b = self.rng.byte();
                            v.push(if small && self.rng.chance(2, 3) { b % 16 } else { b });
                        }
                    }
                }
                (BUILT, v)
            }
            Src::Raw(e) => {
                let n = self.size();
                (e, self.rng.bytes(n))
            }
        }
    }
}
