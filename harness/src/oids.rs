//! Object identifiers in common use, and what the sources under test write out.

use crate::gen::{EKU_OIDS, EXT_OIDS, NAMED_OIDS, OTHER_OIDS};

/// a prefix and the last arcs registered under it
const FAMILIES: &[(&[u64], &[u64])] = &[
    // attribute types
    (&[2, 5, 4], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 23, 24, 26, 27, 31, 32, 33, 34, 35, 36, 41, 42, 43, 44, 45, 46, 49, 50, 51, 52, 53, 54, 58, 65, 72, 97]),
    (&[0, 9, 2342, 19200300, 100, 1], &[1, 2, 3, 4, 25, 26, 37, 38, 43, 60]),
    (&[1, 2, 840, 113549, 1, 9], &[2, 3, 4, 5, 6, 7, 8, 9, 14, 15, 16, 20, 21, 22, 52]),
    (&[1, 3, 6, 1, 4, 1, 311, 60, 2, 1], &[1, 2, 3]),
    (&[1, 3, 6, 1, 4, 1, 311], &[1, 2, 13, 20, 21, 17, 3]),
    (&[1, 3, 6, 1, 4, 1, 311, 20, 2], &[1, 2, 3]),
    (&[1, 3, 6, 1, 4, 1, 311, 10, 3], &[1, 3, 4, 12]),
    (&[1, 3, 6, 1, 4, 1, 311, 21], &[1, 7, 10]),
    (&[1, 3, 6, 1, 4, 1, 11129, 2, 4], &[2, 3, 4, 5]),
    (&[1, 3, 6, 1, 5, 5, 7, 9], &[1, 2, 3, 4, 5]),
    // certificate extensions
    (&[2, 5, 29], &[1, 2, 3, 9, 14, 15, 16, 17, 18, 19, 20, 21, 24, 27, 28, 29, 30, 31, 32, 33, 35, 36, 37, 46, 54, 55, 56]),
    (&[1, 3, 6, 1, 5, 5, 7, 1], &[1, 2, 3, 7, 8, 11, 12, 14, 24, 28]),
    (&[2, 16, 840, 1, 113730, 1], &[1, 2, 3, 4, 8, 12, 13]),
    (&[2, 5, 29, 32], &[0]),
    (&[2, 5, 29, 37], &[0]),
    // purposes
    (&[1, 3, 6, 1, 5, 5, 7, 3], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 21, 22, 27, 28, 31, 36]),
    (&[1, 3, 6, 1, 5, 2, 3], &[4, 5]),
    (&[1, 3, 6, 1, 5, 5, 8, 2], &[2]),
    (&[2, 16, 840, 1, 113730, 4], &[1]),
    // access methods, policies
    (&[1, 3, 6, 1, 5, 5, 7, 48], &[1, 2, 3, 5]),
    (&[1, 3, 6, 1, 5, 5, 7, 2], &[1, 2]),
    (&[2, 23, 140, 1], &[1, 31, 3]),
    (&[2, 23, 140, 1, 2], &[1, 2, 3]),
    // keys, signatures, digests
    (&[1, 2, 840, 113549, 1, 1], &[1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]),
    (&[1, 2, 840, 113549, 2], &[2, 5, 7, 9]),
    (&[1, 2, 840, 113549, 1, 3], &[1]),
    (&[1, 2, 840, 10040, 4], &[1, 3]),
    (&[1, 2, 840, 10045, 2], &[1]),
    (&[1, 2, 840, 10045, 3, 1], &[1, 7]),
    (&[1, 2, 840, 10045, 4], &[1]),
    (&[1, 2, 840, 10045, 4, 3], &[1, 2, 3, 4]),
    (&[1, 2, 840, 10046, 2], &[1]),
    (&[1, 3, 101], &[110, 111, 112, 113, 114]),
    (&[1, 3, 132, 0], &[1, 10, 33, 34, 35]),
    (&[1, 3, 132, 1], &[12]),
    (&[1, 3, 36, 3, 3, 2, 8, 1, 1], &[1, 7, 11, 13]),
    (&[1, 3, 14, 3, 2], &[3, 12, 13, 15, 26, 27, 29]),
    (&[2, 16, 840, 1, 101, 3, 4, 2], &[1, 2, 3, 4, 8]),
    (&[2, 16, 840, 1, 101, 3, 4, 3], &[1, 2, 3, 14, 17, 18, 19]),
    (&[1, 2, 643, 7, 1, 1, 1], &[1, 2]),
    (&[1, 2, 156, 10197, 1], &[301, 501]),
    // private ones
    (&[1, 3, 6, 1, 4, 1, 50316, 802], &[0, 1, 2, 3]),
    (&[1, 3, 6, 1, 4, 1, 50316], &[800, 801, 802, 803]),
];

/// identifiers in use
pub fn registered() -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = Vec::new();
    for p in [NAMED_OIDS, EXT_OIDS, EKU_OIDS, OTHER_OIDS] {
        v.extend(p.iter().map(|o| o.to_vec()));
    }
    for (prefix, last) in FAMILIES {
        for l in *last {
            v.push([prefix, &[*l][..]].concat());
        }
    }
    distinct(v)
}

fn distinct(mut v: Vec<Vec<u64>>) -> Vec<Vec<u64>> {
    let mut seen = std::collections::HashSet::new();
    v.retain(|o| seen.insert(o.clone()));
    v
}

/// every identifier worth trying as such
pub fn known() -> Vec<Vec<u64>> {
    distinct([registered(), source().oids.clone()].concat())
}

/// Literals of the sources under test. They steer the inputs only: nothing is judged by them.
#[derive(Default)]
pub struct Source {
    pub oids: Vec<Vec<u64>>,
    pub words: Vec<Vec<u8>>,
    pub ints: Vec<u64>,
}

static SOURCE: std::sync::OnceLock<Source> = std::sync::OnceLock::new();

pub fn source() -> &'static Source {
    SOURCE.get_or_init(Source::default)
}

/// lines: `a 1,2,3` integers in brackets, `w 6162` octets, `n 77` an integer
pub fn load(path: &str) {
    let mut s = Source::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some((k, v)) = l.split_once(' ') else { continue };
        match k {
            "a" => {
                let a: Vec<u64> = v.split(',').filter_map(|x| x.parse().ok()).collect();
                let fits = a.len() >= 2 && (a[0] < 2 && a[1] < 40 || a[0] == 2) && a.iter().all(|x| *x < (1 << 28) - 80);
                if fits {
                    s.oids.push(a.clone());
                }
                if !a.is_empty() && a.iter().all(|x| *x < 256) {
                    s.words.push(a.iter().map(|x| *x as u8).collect());
                }
            }
            "w" => s.words.push(crate::rep::unhex(v)),
            "n" => s.ints.extend(v.parse::<u64>().ok()),
            _ => {}
        }
    }
    let _ = SOURCE.set(s);
}
