//! Generators: values, texts and calls. Nothing here calls the code under test.
use crate::rng::Rng;
use adapter::{Op, K, KINDS};

pub const DATE_MIN: i64 = -2451545;
pub const DATE_END: i64 = 2147483494 - 2451545; // exclusive
pub const TS_MIN: i64 = -211_813_488_000_000_000;
pub const TS_END: i64 = 9_223_371_331_200_000_000; // exclusive
pub const DAY: i64 = 86_400_000_000;

pub const MONTHS: &[&str] = &[
    "january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november",
    "december", "jan", "feb", "mar", "apr", "jun", "jul", "aug", "sep", "sept", "oct", "nov", "dec", "fe",
];
pub const WDAYS: &[&str] = &[
    "sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sun", "mon", "tue", "wed", "thu",
    "fri", "sat", "tues", "weds", "thur", "thurs",
];
pub const SPECIAL: &[&str] = &[
    "now", "today", "tomorrow", "yesterday", "epoch", "infinity", "-infinity", "+infinity", "invalid", "undefined",
    "allballs", "current", "zulu", "z", "utc", "gmt", "j", "jd", "julian", "t", "at", "on", "dow", "doy", "isodow",
    "am", "pm", "ad", "bc", "dst", "d", "h", "m", "mm", "s", "y", "ago", "@",
];
pub const ZONES: &[&str] = &[
    "pst", "pdt", "est", "edt", "cet", "cest", "msk", "jst", "ist", "acst", "nzdt", "met", "cetdst", "wadt", "zp4",
    "America/New_York", "gmt-8", "utc+3", "that", "it", "ut", "yst", "hst", "uyt",
];
pub const UNITS: &[&str] = &[
    "microsecond", "microseconds", "microsecon", "us", "usec", "usecs", "useconds", "usecond", "millisecond",
    "milliseconds", "ms", "msec", "msecs", "mseconds", "msecond", "second", "seconds", "sec", "secs", "s", "minute",
    "minutes", "min", "mins", "m", "hour", "hours", "hr", "hrs", "h", "day", "days", "d", "week", "weeks", "w",
    "month", "months", "mon", "mons", "quarter", "qtr", "year", "years", "yr", "yrs", "y", "decade", "decades",
    "dec", "decs", "century", "centuries", "cent", "c", "millennium", "millennia", "mil", "mils", "timezone",
    "timezone_h", "timezone_m", "timezone_hour", "undefined", "ago",
];

fn case(r: &mut Rng, s: &str) -> String {
    match r.below(6) {
        0 => s.to_uppercase(),
        1 => {
            let mut c = s.chars();
            match c.next() {
                Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
                None => String::new(),
            }
        }
        _ => s.to_string(),
    }
}

/// words that share their first letters with one another
fn family(r: &mut Rng, all: &[&'static str]) -> Vec<&'static str> {
    let base = *r.pick(all);
    let k = 1 + r.us(2);
    let pre = &base[..k.min(base.len())];
    let mut v: Vec<&'static str> = all.iter().copied().filter(|w| w.starts_with(pre)).collect();
    r.shuffle(&mut v);
    v.truncate(2 + r.us(8));
    if r.chance(1, 3) {
        v.push(*r.pick(all));
    }
    v
}
pub fn theme(r: &mut Rng) -> crate::rng::Theme {
    let mut t = crate::rng::Theme::default();
    if r.chance(1, 2) {
        let d = match r.below(4) {
            0 => 59 + 1461 * r.range(-60, 60) + *r.pick(&[0, 1, 307, 365, 366, 672, 730, 1096]),
            1 => 36524 * r.range(-128, 60) + r.range(-400, 400),
            _ => date_val(r).clamp(DATE_MIN + 800, 106_751_000),
        };
        let tv = time_val(r);
        t.anchor = Some((d, tv));
    }
    if r.chance(1, 2) {
        t.units = family(r, UNITS);
        let words: Vec<&'static str> = [MONTHS, WDAYS, SPECIAL, ZONES].concat();
        t.words = family(r, &words);
    }
    t
}

pub fn word(r: &mut Rng) -> String {
    if !r.2.words.is_empty() && r.chance(3, 4) {
        let t = r.2.clone();
        let s = if r.chance(1, 2) { *r.pick(&t.words) } else { *r.pick(&t.units) };
        return case(r, s);
    }
    let s = match r.below(10) {
        0..=2 => *r.pick(MONTHS),
        3..=4 => *r.pick(WDAYS),
        5 => *r.pick(SPECIAL),
        6 => *r.pick(ZONES),
        _ => *r.pick(UNITS),
    };
    let mut s = case(r, s);
    if r.chance(1, 12) {
        // near neighbours: a prefix, or a longer word with the same first characters
        if r.chance(1, 2) && s.len() > 1 && s.is_ascii() {
            s.truncate(1 + r.us(s.len() - 1));
        } else {
            s.push((b'a' + r.below(26) as u8) as char);
        }
    }
    s
}

pub fn year(r: &mut Rng) -> i64 {
    match r.below(12) {
        0 => r.range(0, 99),
        1 => *r.pick(&[1, 4, 99, 100, 400, 999, 1000, 1582, 1900, 1999, 2000, 2001, 2004, 2100, 9999, 10000]),
        2 => r.range(1, 9999),
        3 => *r.pick(&[4713, 4714, 294276, 294277, 5874897, 5874898, 99999, 100000, 1000000]),
        4 => r.range(10000, 5874897),
        _ => r.range(1890, 2110),
    }
}
fn num(r: &mut Rng) -> String {
    match r.below(10) {
        0 => format!("{}", r.range(0, 9)),
        1 => format!("{:02}", r.range(0, 61)),
        2 => format!("{:03}", r.range(0, 367)),
        3 => format!("{:04}", r.range(0, 9999)),
        4 => format!("{:06}", r.range(0, 999999)),
        5 => format!("{}", r.range(0, 99999999)),
        6 => format!("{}.{}", r.range(0, 100), r.range(0, 999999)),
        7 => format!("{}", *r.pick(&[2147483647i64, 2147483648, 4294967296, 9999999999, 10000000000])),
        8 => format!("{:04}.{:03}", year(r), r.range(0, 366)),
        _ => format!("{}", r.range(0, 31)),
    }
}

pub fn date_text(r: &mut Rng) -> String {
    let y = year(r);
    let m = if r.chance(1, 15) { r.range(0, 14) } else { r.range(1, 12) };
    let d = if r.chance(1, 10) { *r.pick(&[0, 28, 29, 30, 31, 32]) } else { r.range(1, 28) };
    let (mut y, mut m, mut d) = (y, m, d);
    if let Some((a, _)) = r.2.anchor {
        if r.chance(3, 4) {
            let near = *r.pick(&[2i64, 2, 8, 40]);
            (y, m, d) = crate::oldrel::civil(a + r.range(-near, near));
            if r.chance(1, 6) {
                d = r.range(1, 31);
            }
        }
    }
    let mn = if r.chance(1, 2) && (1..=12).contains(&m) { MONTHS[m as usize - 1] } else { *r.pick(MONTHS) };
    let mn = case(r, mn);
    let sep = *r.pick(&["-", "/", ".", " ", "-", "-"]);
    let mut s = match r.below(14) {
        0..=3 => format!("{:04}{}{:02}{}{:02}", y, sep, m, sep, d),
        4 => format!("{:02}{}{:02}{}{:04}", m, sep, d, sep, y),
        5 => format!("{:02}{}{:02}{}{:04}", d, sep, m, sep, y),
        6 => format!("{:02}{}{:02}{}{:02}", m, sep, d, sep, y % 100),
        7 => format!("{} {}, {}", mn, d, y),
        8 => format!("{}-{}-{}", d, mn, y),
        9 => format!("{}-{}-{}", y, mn, d),
        10 => format!("{:04}{:02}{:02}", y, m, d),
        11 => format!("{}.{:03}", y, r.range(1, 366)),
        12 => format!("J{}", *r.pick(&[0, 1, 2451545, 2451187, 2440588, 109203527, 2147483493, 2488070])),
        _ => format!("y{:04}m{:02}d{:02}", y, m, d),
    };
    if r.chance(1, 8) {
        s.push_str(*r.pick(&[" BC", " AD", " bc", "BC", " b.c."]));
    }
    if r.chance(1, 10) {
        let w = *r.pick(WDAYS);
        s = format!("{} {}", case(r, w), s);
    }
    s
}

pub fn time_text(r: &mut Rng) -> String {
    let h = if r.chance(1, 10) { r.range(0, 30) } else { r.range(0, 23) };
    let m = if r.chance(1, 12) { r.range(0, 99) } else { r.range(0, 59) };
    let sc = if r.chance(1, 12) { r.range(0, 99) } else { r.range(0, 59) };
    let frac = match r.below(6) {
        0 => format!(".{}", r.range(0, 9)),
        1 => format!(".{:06}", r.range(0, 999999)),
        2 => format!(".{:03}", r.range(0, 999)),
        3 => format!(".{:07}", r.range(0, 9999999)),
        _ => String::new(),
    };
    let mut s = match r.below(10) {
        0 => format!("{:02}:{:02}", h, m),
        1 => format!("{:02}{:02}{:02}", h, m, sc),
        2 => format!("{:02}{:02}", h, m),
        3 => format!("T{:02}:{:02}:{:02}{}", h, m, sc, frac),
        4 => (*r.pick(&["allballs", "24:00:00", "23:59:60", "23:59:59.9999999", "00:00:00", "12:00 am", "12:00 pm"]))
            .to_string(),
        _ => format!("{:02}:{:02}:{:02}{}", h, m, sc, frac),
    };
    if r.chance(1, 8) {
        s.push_str(*r.pick(&[" am", " pm", "AM", " PM", " p.m."]));
    }
    s
}

pub fn ts_text(r: &mut Rng) -> String {
    if r.chance(1, 10) {
        let w = *r.pick(SPECIAL);
        return case(r, w);
    }
    let d = date_text(r);
    let t = time_text(r);
    match r.below(10) {
        0 => format!("{}T{}", d, t),
        1 => format!("{} {}", t, d),
        2 => d,
        3 => {
            let (w, mn) = (*r.pick(WDAYS), *r.pick(MONTHS));
            format!("{} {} {:02} {} {:04}", case(r, w), case(r, mn), r.range(1, 31), t, year(r))
        }
        4 => format!("{} at {}", d, t),
        _ => format!("{} {}", d, t),
    }
}

pub fn iv_text(r: &mut Rng) -> String {
    let sg = |r: &mut Rng| *r.pick(&["", "", "", "+", "-"]);
    match r.below(12) {
        0 => format!("{}{}-{}", sg(r), r.range(0, 3000), r.range(0, 13)),
        1 => format!("{}{} {}{}:{:02}:{:02}", sg(r), r.range(0, 400), sg(r), r.range(0, 200), r.range(0, 61), r.range(0, 61)),
        2 => format!(
            "{}{}-{} {}{} {}{}:{:02}:{:02}.{:06}",
            sg(r), r.range(0, 300), r.range(0, 12), sg(r), r.range(0, 40), sg(r), r.range(0, 30), r.range(0, 59), r.range(0, 59), r.range(0, 999999)
        ),
        3 => {
            let mut s = format!("{}P", if r.chance(1, 6) { "-" } else { "" });
            for u in ["Y", "M", "W", "D"] {
                if r.chance(1, 2) {
                    s += &format!("{}{}{}", if r.chance(1, 5) { "-" } else { "" }, r.range(0, 99), u);
                }
            }
            if r.chance(2, 3) {
                s.push('T');
                for u in ["H", "M", "S"] {
                    if r.chance(1, 2) {
                        let f = if r.chance(1, 3) { format!(".{}", r.range(0, 999)) } else { String::new() };
                        s += &format!("{}{}{}", r.range(0, 99), f, u);
                    }
                }
            }
            s
        }
        4 if r.chance(1, 2) => {
            // the basic form, complete or cut
            let full = format!("P{:04}{:02}{:02}T{:02}{:02}{:02}", r.range(0, 3000), r.range(0, 12), r.range(0, 31), r.range(0, 23), r.range(0, 59), r.range(0, 59));
            let n = if r.chance(1, 2) { full.len() } else { 1 + r.us(full.len()) };
            let mut s = full[..n].to_string();
            if r.chance(1, 3) {
                s += &format!(".{}", r.range(0, 9999));
            }
            s
        }
        4 => format!("P{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", r.range(0, 3000), r.range(0, 12), r.range(0, 31), r.range(0, 23), r.range(0, 59), r.range(0, 59)),
        _ => {
            let mut s = String::new();
            if r.chance(1, 6) {
                s.push_str("@ ");
            }
            let most = if r.2.units.is_empty() { 5 } else { 2 };
            for _ in 0..1 + r.below(most) {
                let n = if !r.2.units.is_empty() && r.chance(1, 2) { "7".to_string() } else { num(r) };
                let u = if !r.2.units.is_empty() && r.chance(3, 4) {
                    let t = r.2.units.clone();
                    *r.pick(&t)
                } else {
                    *r.pick(UNITS)
                };
                let sp = if r.chance(4, 5) { " " } else { "" };
                let sgn = sg(r);
                s += &format!("{}{}{}{} ", sgn, n, sp, case(r, u));
            }
            if r.chance(1, 3) {
                s += &format!("{:02}:{:02}:{:02} ", r.range(0, 23), r.range(0, 59), r.range(0, 59));
            }
            if r.chance(1, 6) {
                s += "ago";
            }
            s.trim_end().to_string()
        }
    }
}

/// words and numbers in any position: reaches every lookup slot and most error paths
pub fn soup(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 1,
        1 => 2 + r.us(24),
        _ => 1 + r.us(7),
    };
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(*r.pick(&[" ", " ", " ", " ", "-", "/", ".", ",", ":", "", "+", "  "]));
        }
        match r.below(9) {
            0..=4 => s.push_str(&word(r)),
            5 => s.push_str(&time_text(r)),
            6 => s.push_str(&date_text(r)),
            _ => s.push_str(&num(r)),
        }
    }
    s
}

pub fn damage(r: &mut Rng, s: &mut Vec<u8>) {
    for _ in 0..1 + r.below(2) {
        let n = s.len();
        match r.below(6) {
            0 if n > 0 => {
                let i = r.us(n);
                s[i] ^= 1 << r.below(7);
            }
            1 if n > 0 => {
                let i = r.us(n);
                s.truncate(i);
            }
            2 if n > 0 => {
                let i = r.us(n);
                s.remove(i);
            }
            3 => {
                let i = r.us(n + 1);
                s.insert(i, *r.pick(b"0123456789 +-./:TtZ@,ymdhsabcj"));
            }
            4 if n > 1 => {
                let i = r.us(n - 1);
                s.swap(i, i + 1);
            }
            5 if n > 0 => {
                let i = r.us(n);
                let j = (i + 1 + r.us(8)).min(n);
                let t: Vec<u8> = s[i..j].to_vec();
                for (k, b) in t.into_iter().enumerate() {
                    s.insert(j + k, b);
                }
            }
            _ => {}
        }
    }
}

/// Texts that between them reach the parsers' code (collected once by `pgdst harvest`, committed).
fn corpus(which: usize) -> &'static [String] {
    static C: std::sync::OnceLock<[Vec<String>; 4]> = std::sync::OnceLock::new();
    &C.get_or_init(|| {
        let mut v: [Vec<String>; 4] = Default::default();
        for l in include_str!("../corpus.jsonl").lines() {
            if let Ok((k, s)) = serde_json::from_str::<(usize, String)>(l) {
                v[k % 4].push(s);
            }
        }
        v
    })[which % 4]
}

/// which: 0 date, 1 time, 2 timestamp, 3 interval
pub fn text(r: &mut Rng, which: u8) -> String {
    let s = match r.below(24) {
        20..=22 => r.pick(corpus(which as usize)).clone(),
        23 => {
            let w = r.us(4);
            r.pick(corpus(w)).clone()
        }
        0..=4 => soup(r),
        5 => {
            let w = r.below(4) as u8;
            clean(r, w)
        }
        _ => clean(r, which),
    };
    let s = if r.chance(1, 12) {
        let tail = *r.pick(TAILS);
        s + tail
    } else {
        s
    };
    if r.chance(1, 10) {
        let mut b = s.into_bytes();
        damage(r, &mut b);
        return String::from_utf8_lossy(&b).into_owned();
    }
    s
}
/// what may be stuck to the end of a text
const TAILS: &[&str] = &[
    "Z", "z", "T", "t", "P", "-", "+", ".", ",", " ", ":", "e5", "E-3", " ago", " BC", "+08", "-08:30", "+08:30:15", " PST", " z",
    "0", "00", "D", "H", "M", "S", "W", "Y", "T1", "-1", "+1", ".5", "ZZ", " T", "\u{e9}", "/", "@", "'", "\t", "\n", "\u{0}",
];
fn clean(r: &mut Rng, which: u8) -> String {
    match which {
        0 => {
            if r.chance(1, 12) {
                let w = *r.pick(SPECIAL);
                case(r, w)
            } else if r.chance(1, 10) {
                ts_text(r)
            } else {
                date_text(r)
            }
        }
        1 => {
            if r.chance(1, 10) {
                ts_text(r)
            } else {
                time_text(r)
            }
        }
        2 => ts_text(r),
        _ => iv_text(r),
    }
}

pub fn date_val(r: &mut Rng) -> i64 {
    if let Some((a, _)) = r.2.anchor {
        if r.chance(7, 8) {
            let far = if r.chance(1, 6) { *r.pick(&[365i64, 366, -365, -366, 1461, -1461, 36524, 146_097, -146_097, 7, 28]) } else { 0 };
            let near = *r.pick(&[2i64, 2, 8, 40]);
            return (a + r.range(-near, near) + far).clamp(DATE_MIN, DATE_END - 1);
        }
    }
    match r.below(16) {
        0 if r.chance(1, 3) => {
            // where the range of timestamps ends inside that of dates
            let e = TS_END / DAY;
            *r.pick(&[e, e - 1, e + 1, e - 2, e + 30, e + 366])
        }
        0 => *r.pick(&[DATE_MIN, DATE_MIN + 1, DATE_END - 1, DATE_END - 2, 0, -1, 1, -10957, i32::MAX as i64, i32::MIN as i64]),
        1 => r.range(DATE_MIN, DATE_END - 1),
        2 => -730487 + r.range(-800, 800), // around year 0
        3 => r.range(DATE_MIN, 400000),
        4 if r.chance(1, 2) => r.range(-60, 60),
        4 => {
            // the end of February, leap years or not, before Christ too
            let y = if r.chance(1, 2) { r.range(-4711, 3000) } else { r.range(-1177, 750) * 4 };
            crate::model::day(y, 3, 1) - r.range(0, 2)
        }
        5 => {
            // where decades, centuries and millennia begin and end, before Christ too
            let y = match r.below(4) {
                0 => r.range(-4, 6) * 1000,
                1 => r.range(-471, 900) * 10,
                2 => r.range(-47, 2900) * 100,
                _ => r.range(-47, 90) * 100,
            } + r.range(-2, 2);
            crate::model::day(y, *r.pick(&[1, 1, 12, 3]), 1) + *r.pick(&[0, 0, -1, 1, 30, 6])
        }
        .clamp(DATE_MIN, DATE_END - 1),
        _ => r.range(-40000, 40000),
    }
}
pub fn time_val(r: &mut Rng) -> i64 {
    if let Some((_, a)) = r.2.anchor {
        if r.chance(3, 4) {
            let step = *r.pick(&[0i64, 1, 1000, 1_000_000, 60_000_000, 3_600_000_000]);
            return (a + step * r.range(-3, 3)).clamp(0, DAY);
        }
    }
    match r.below(8) {
        0 => *r.pick(&[0, 1, DAY, DAY - 1, DAY / 2, 999_999, 59_999_999, 3_599_999_999, DAY - 1_000_000]),
        1 => r.range(0, 86399) * 1_000_000,
        2 => r.range(0, 86_399_999) * 1000,
        3 => r.range(0, 86399) * 1_000_000 + *r.pick(&[1, 10, 100, 999_999, 500_000, 999_990, 100_000]),
        _ => r.range(0, DAY),
    }
}
pub fn ts_val(r: &mut Rng) -> i64 {
    match r.below(16) {
        0 => *r.pick(&[TS_MIN, TS_MIN + 1, TS_END - 1, TS_END - DAY, TS_END - DAY - 1, TS_MIN + DAY, 0, -1, 1, i64::MAX, i64::MIN]),
        1 => r.range(TS_MIN, TS_END - 1),
        2 => r.range(-60, 60) * DAY + r.range(-2, 2),
        _ => {
            let d = date_val(r).clamp(-2451545, 106_751_982);
            (d * DAY).saturating_add(time_val(r)).clamp(TS_MIN, TS_END - 1)
        }
    }
}
/// (time, day, month)
pub fn iv_val(r: &mut Rng) -> (i64, i64, i64) {
    let sgn = |r: &mut Rng| if r.chance(1, 3) { -1 } else { 1 };
    let t = match r.below(10) {
        0 => 0,
        1 => *r.pick(&[1, -1, 999_999, DAY, -DAY, DAY - 1, 3_600_000_000, i64::MAX, i64::MIN, i64::MIN + 1, i32::MAX as i64 * 3_600_000_000]),
        2 => r.range(i64::MIN / 2, i64::MAX / 2),
        3 => sgn(r) * r.range(0, 1000) * 1_000_000,
        _ => sgn(r) * r.range(0, 100) * 3_600_000_000 + sgn(r) * time_val(r),
    };
    let d = match r.below(10) {
        0..=2 => 0,
        3 => *r.pick(&[1, -1, 30, -30, 29, 31, i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 1]),
        4 => r.range(i32::MIN as i64, i32::MAX as i64),
        _ => sgn(r) * r.range(0, 400),
    };
    let m = match r.below(10) {
        0..=2 => 0,
        3 => *r.pick(&[1, -1, 12, -12, 11, 13, 1200, i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 1]),
        4 => r.range(i32::MIN as i64, i32::MAX as i64),
        _ => sgn(r) * r.range(0, 600),
    };
    (t, d, m)
}
fn fval(r: &mut Rng) -> i64 {
    let f = match r.below(10) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1e-9, 1e18, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 59.9999999, 60.0]),
        1 => r.range(-1000000, 1000000) as f64 / 1000.0,
        2 => r.range(0, 59) as f64,
        _ => r.range(0, 59_999_999) as f64 / 1e6,
    };
    f.to_bits() as i64
}
fn typmod(r: &mut Rng) -> i64 {
    match r.below(10) {
        0..=5 => -1,
        6..=8 => r.range(0, 7),
        _ => r.range(0, 100),
    }
}
fn iv_typmod(r: &mut Rng) -> i64 {
    // (range << 16) | precision, ranges as bit masks of the parsed fields
    let ranges = [
        1 << 2, 1 << 1, 1 << 3, 1 << 10, 1 << 11, 1 << 12, (1 << 2) | (1 << 1), (1 << 3) | (1 << 10),
        (1 << 3) | (1 << 10) | (1 << 11), (1 << 3) | (1 << 10) | (1 << 11) | (1 << 12), (1 << 10) | (1 << 11),
        (1 << 10) | (1 << 11) | (1 << 12), (1 << 11) | (1 << 12), 0x7fff, 1 << 4, 0,
    ];
    match r.below(10) {
        0..=5 => -1,
        6 => r.range(0, 6),
        _ => {
            let rg: i64 = *r.pick(&ranges);
            let p = *r.pick(&[0i64, 1, 2, 3, 4, 5, 6, 0xffff]);
            (rg << 16) | p
        }
    }
}
fn iv3(r: &mut Rng, n: &mut Vec<i64>) {
    let (t, d, m) = iv_val(r);
    n.extend([t, d, m]);
}
fn quote(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn op(r: &mut Rng, k: K) -> Op {
    let mut n: Vec<i64> = vec![];
    let mut e: Vec<u8> = vec![];
    let mut s = String::new();
    let unit = |r: &mut Rng| r.below(23) as u8;
    let ft = |r: &mut Rng| r.chance(1, 6) as u8;
    match k {
        K::DateYmd => n.extend([year(r) * if r.chance(1, 8) { -1 } else { 1 }, r.range(0, 13), r.range(0, 32)]),
        K::DateAddDays | K::DateSubDays => {
            n.push(date_val(r));
            n.push(if r.chance(1, 8) { r.range(i32::MIN as i64, i32::MAX as i64) } else { r.range(-5000, 5000) });
        }
        K::DateSubDate | K::DateCmp => n.extend([date_val(r), date_val(r)]),
        K::DateAddIv | K::DateSubIv => {
            n.push(date_val(r));
            iv3(r, &mut n);
        }
        K::DateAddTime => n.extend([date_val(r), time_val(r)]),
        K::DateParse => {
            s = text(r, 0);
            e.push(r.below(3) as u8);
        }
        K::DateFmt => {
            n.push(date_val(r));
            e.extend([r.below(5) as u8, r.below(3) as u8]);
        }
        K::DateFromTs | K::TimeFromTs | K::TsFinite | K::TsJson | K::TsBin | K::TsUnbin => n.push(ts_val(r)),
        K::DatePart | K::DateTrunc => {
            n.push(date_val(r));
            e.extend([ft(r), unit(r)]);
        }
        K::DateFinite | K::DateCmpTs | K::DateJson | K::DateBin | K::DateUnbin | K::TsFromDate => n.push(date_val(r)),
        K::TimeHms => n.extend([r.range(0, 24), r.range(0, 60), fval(r)]),
        K::TimeParse => {
            s = text(r, 1);
            n.push(typmod(r));
            e.push(r.below(3) as u8);
        }
        K::TimeFmt => {
            n.push(time_val(r));
            e.push(r.below(5) as u8);
        }
        K::TimeAddIv | K::TimeSubIv => {
            n.push(time_val(r));
            iv3(r, &mut n);
        }
        K::TimeSubTime | K::TimeCmp => n.extend([time_val(r), time_val(r)]),
        K::TimeFromIv => iv3(r, &mut n),
        K::TimePart | K::TimeTrunc => {
            n.push(time_val(r));
            e.extend([ft(r), unit(r)]);
        }
        K::TsYmdHms => {
            n.extend([year(r) * if r.chance(1, 8) { -1 } else { 1 }, r.range(0, 13), r.range(0, 32), r.range(0, 24), r.range(0, 60), fval(r)])
        }
        K::TsParse => {
            s = text(r, 2);
            n.push(typmod(r));
            e.push(r.below(3) as u8);
        }
        K::TsFmt => {
            n.push(ts_val(r));
            e.extend([r.below(5) as u8, r.below(3) as u8]);
        }
        K::TsAddIv | K::TsSubIv => {
            n.push(ts_val(r));
            iv3(r, &mut n);
        }
        K::TsAddTime | K::TsSubTime => n.extend([ts_val(r), time_val(r)]),
        K::TsSubDate => n.extend([ts_val(r), date_val(r)]),
        K::TsSubTs | K::TsAge | K::TsCmp => n.extend([ts_val(r), ts_val(r)]),
        K::TsPart | K::TsTrunc => {
            n.push(ts_val(r));
            e.extend([ft(r), unit(r)]);
        }
        K::IvYmwdHms => {
            for _ in 0..6 {
                n.push(if r.chance(1, 12) { r.range(i32::MIN as i64, i32::MAX as i64) } else { r.range(-40, 40) });
            }
            n.push(fval(r));
        }
        K::IvParse => {
            s = text(r, 3);
            n.push(iv_typmod(r));
            e.push(r.below(4) as u8);
        }
        K::IvFmt => {
            iv3(r, &mut n);
            e.push(r.below(4) as u8);
        }
        K::IvAdd | K::IvSub | K::IvCmp | K::IvPlus => {
            iv3(r, &mut n);
            iv3(r, &mut n);
        }
        K::IvNeg | K::IvJHours | K::IvJDays | K::IvJIv | K::IvToI128 | K::IvJson | K::IvBin | K::IvUnbin => iv3(r, &mut n),
        K::IvMul | K::IvDiv => {
            iv3(r, &mut n);
            n.push(fval(r));
        }
        K::IvFromTime | K::TimeJson | K::TimeBin | K::TimeUnbin => n.push(time_val(r)),
        K::IvPart | K::IvTrunc => {
            iv3(r, &mut n);
            e.extend([ft(r), unit(r)]);
        }
        K::DateUnjson => s = quote(&text(r, 0)),
        K::TimeUnjson => s = quote(&text(r, 1)),
        K::TsUnjson => s = quote(&text(r, 2)),
        K::IvUnjson => s = quote(&text(r, 3)),
    }
    Op { k, s, n, e }
}

pub fn has_text(k: K) -> bool {
    matches!(
        k,
        K::DateParse | K::TimeParse | K::TsParse | K::IvParse | K::DateUnjson | K::TimeUnjson | K::TsUnjson | K::IvUnjson
    )
}

/// a call that differs from `o` in one respect
pub fn mutate(r: &mut Rng, o: &Op) -> Op {
    let mut m = o.clone();
    let choice = r.below(10);
    if !m.e.is_empty() && choice < 3 {
        let i = r.us(m.e.len());
        m.e[i] = m.e[i].wrapping_add(1 + r.below(4) as u8) % 23;
        return m;
    }
    if has_text(m.k) && choice < 8 {
        if choice == 7 {
            // the same text through another entry point
            m.k = *r.pick(&[K::DateParse, K::TimeParse, K::TsParse, K::IvParse]);
            if m.n.is_empty() {
                m.n.push(-1);
            }
            if m.e.is_empty() {
                m.e.push(0);
            }
            return m;
        }
        let mut parts: Vec<String> = m.s.split(' ').map(|x| x.to_string()).collect();
        let i = r.us(parts.len());
        match r.below(6) {
            0 | 1 => parts[i] = word(r),
            2 => parts[i] = num(r),
            3 => {
                // one digit changes
                let mut b = std::mem::take(&mut parts[i]).into_bytes();
                let ds: Vec<usize> = (0..b.len()).filter(|x| b[*x].is_ascii_digit()).collect();
                if !ds.is_empty() {
                    b[*r.pick(&ds)] = b'0' + r.below(10) as u8;
                }
                parts[i] = String::from_utf8_lossy(&b).into_owned();
            }
            4 => {
                let w = word(r);
                parts.insert(i, w);
            }
            _ => {
                let j = r.us(parts.len());
                parts.swap(i, j);
            }
        }
        m.s = parts.join(" ");
        return m;
    }
    if !m.n.is_empty() {
        let i = r.us(m.n.len());
        if has_text(m.k) {
            m.n[i] = if m.k == K::IvParse { iv_typmod(r) } else { typmod(r) };
        } else if matches!(m.k, K::TsYmdHms | K::IvYmwdHms | K::TimeHms | K::IvMul | K::IvDiv) && i + 1 == m.n.len() {
            m.n[i] = fval(r);
        } else {
            m.n[i] = m.n[i].wrapping_add(*r.pick(&[1, -1, 2, 7, 30, 31, 365, 366, 1_000_000, -1_000_000, DAY, -DAY, 128, 256, 65536]));
        }
        return m;
    }
    m
}

pub fn pool(r: &mut Rng, n: usize) -> Vec<Op> {
    r.2 = theme(r);
    let mut kinds: Vec<K> = KINDS.to_vec();
    // swarm: a batch concentrates on some of the entry points
    r.shuffle(&mut kinds);
    let keep = match r.below(4) {
        0 => 3 + r.us(6),
        1 => 10 + r.us(20),
        _ => kinds.len(),
    };
    kinds.truncate(keep);
    if r.chance(3, 4) {
        kinds.extend([K::DateParse, K::TsParse, K::IvParse, K::TimeParse]);
    }
    let mut out: Vec<Op> = Vec::with_capacity(n);
    while out.len() < n {
        let o = if !out.is_empty() && r.chance(1, 2) {
            let back = if r.chance(1, 2) { out.len() - 1 } else { r.us(out.len()) };
            mutate(r, &out[back])
        } else {
            let k = *r.pick(&kinds);
            op(r, k)
        };
        out.push(o);
    }
    out
}
