//! Independent civil calendar: Hinnant's era-based algorithms over proleptic Gregorian days.

/// days from 1970-01-01 to y-m-d
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

pub fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (if m <= 2 { y + 1 } else { y }, m, d)
}

/// (y, mo, d, h, mi, s)
pub fn civil(t: u64) -> (i64, i64, i64, i64, i64, i64) {
    let days = (t / 86400) as i64;
    let s = (t % 86400) as i64;
    let (y, m, d) = civil_from_days(days);
    (y, m, d, s / 3600, s / 60 % 60, s % 60)
}

pub fn utc_string(t: u64) -> String {
    let (y, mo, d, h, mi, s) = civil(t);
    format!("{:02}{:02}{:02}{:02}{:02}{:02}Z", y % 100, mo, d, h, mi, s)
}

pub fn gen_string(t: u64) -> String {
    let (y, mo, d, h, mi, s) = civil(t);
    format!("{:04}{:02}{:02}{:02}{:02}{:02}Z", y, mo, d, h, mi, s)
}

/// Reference decoding of the contents of the two time types: Some(seconds) iff acceptable.
pub fn decode(contents: &[u8], generalized: bool) -> Option<u64> {
    let want = if generalized { 15 } else { 13 };
    if contents.len() != want || contents[want - 1] != b'Z' {
        return None;
    }
    if !contents[..want - 1].iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let num = |a: usize, n: usize| -> i64 {
        contents[a..a + n].iter().fold(0, |v, b| v * 10 + (b - b'0') as i64)
    };
    let (y, p) = if generalized {
        (num(0, 4), 4)
    } else {
        let yy = num(0, 2);
        (if yy >= 50 { 1900 + yy } else { 2000 + yy }, 2)
    };
    let (mo, d, h, mi, s) = (num(p, 2), num(p + 2, 2), num(p + 4, 2), num(p + 6, 2), num(p + 8, 2));
    if y < 1970 || !(1..=12).contains(&mo) || !(1..=31).contains(&d) || h > 23 || mi > 59 || s > 59 {
        return None;
    }
    let days = days_from_civil(y, mo, d);
    // a date exists iff it survives the round trip
    if civil_from_days(days) != (y, mo, d) {
        return None;
    }
    Some((days * 86400 + h * 3600 + mi * 60 + s) as u64)
}
