//! The earlier release of the library, as far as a store can tell: a reference model of the form
//! in which valid values are stored. Written from the documented formats (ISO 8601 text as
//! PostgreSQL prints it, SQL-standard interval text, integer parts), without the code under test.
use crate::case::VSpec;
use adapter::iofmt::{self, Fmt, Ty};
use serde::ser::{Error, SerializeStruct};
use serde::{Serialize, Serializer};
use std::collections::BTreeMap;

/// year, month, day of a day number (days since 2000-01-01, proleptic Gregorian)
pub fn civil(days: i64) -> (i64, i64, i64) {
    // whole cycles of 400 years are 146097 days; count years from a March
    let z = days + 730_425; // days since 0000-03-01
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let mut yoe = 0;
    // the largest year of the cycle that has begun: found by looking, not by formula
    let starts = |y: i64| y * 365 + y / 4 - y / 100;
    let mut step = 256;
    while step > 0 {
        if yoe + step < 400 && starts(yoe + step) <= doe {
            yoe += step;
        }
        step /= 2;
    }
    let mut d = doe - starts(yoe);
    let lens = [31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29];
    let mut m = 0;
    while d >= lens[m] {
        d -= lens[m];
        m += 1;
    }
    let m = m as i64 + 3;
    let y = era * 400 + yoe;
    if m > 12 {
        (y + 1, m - 12, d + 1)
    } else {
        (y, m, d + 1)
    }
}
fn day(days: i64) -> (String, &'static str) {
    let (y, m, d) = civil(days);
    let (y, bc) = if y > 0 { (y, "") } else { (1 - y, " BC") };
    (format!("{y:04}-{m:02}-{d:02}"), bc)
}
fn frac(us: i64) -> String {
    if us == 0 {
        return String::new();
    }
    format!(".{us:06}").trim_end_matches('0').to_string()
}
fn clock(us: i64) -> String {
    let s = us / 1_000_000;
    format!("{:02}:{:02}:{:02}{}", s / 3600, s / 60 % 60, s % 60, frac(us % 1_000_000))
}

pub struct D(pub i64);
pub struct T(pub i64);
pub struct S(pub i64);
pub struct I(pub i64, pub i64, pub i64);

impl D {
    fn text(&self) -> String {
        if self.0 == i32::MAX as i64 {
            return "infinity".into();
        }
        if self.0 == i32::MIN as i64 {
            return "-infinity".into();
        }
        let (s, bc) = day(self.0);
        s + bc
    }
}
impl T {
    fn text(&self) -> String {
        clock(self.0)
    }
}
impl S {
    fn text(&self) -> String {
        if self.0 == i64::MAX {
            return "infinity".into();
        }
        if self.0 == i64::MIN {
            return "-infinity".into();
        }
        let (s, bc) = day(self.0.div_euclid(86_400_000_000));
        format!("{s} {}{bc}", clock(self.0.rem_euclid(86_400_000_000)))
    }
}
impl I {
    /// None: hours that the text forms refuse
    fn text(&self) -> Option<String> {
        let (t, d, m) = (self.0, self.1, self.2);
        if (t / 3_600_000_000).abs() > i32::MAX as i64 {
            return None;
        }
        let neg = t < 0 || d < 0 || m < 0;
        let pos = t > 0 || d > 0 || m > 0;
        let both = m != 0 && (d != 0 || t != 0);
        let hms = |t: u64| {
            let s = t / 1_000_000;
            format!("{}:{:02}:{:02}{}", s / 3600, s / 60 % 60, s % 60, frac((t % 1_000_000) as i64))
        };
        let (at, ad, am) = (t.unsigned_abs(), d.unsigned_abs(), m.unsigned_abs());
        if !neg && !pos {
            return Some("0".into());
        }
        if (neg && pos) || both {
            let s = |n: i64| if n < 0 { '-' } else { '+' };
            return Some(format!("{}{}-{} {}{ad} {}{}", s(m), am / 12, am % 12, s(d), s(t), hms(at)));
        }
        let sign = if neg { "-" } else { "" };
        Some(if m != 0 {
            format!("{sign}{}-{}", am / 12, am % 12)
        } else if d != 0 {
            format!("{sign}{ad} {}", hms(at))
        } else {
            format!("{sign}{}", hms(at))
        })
    }
}
impl Serialize for D {
    fn serialize<X: Serializer>(&self, x: X) -> Result<X::Ok, X::Error> {
        if x.is_human_readable() {
            x.serialize_str(&self.text())
        } else {
            x.serialize_i32(self.0 as i32)
        }
    }
}
impl Serialize for T {
    fn serialize<X: Serializer>(&self, x: X) -> Result<X::Ok, X::Error> {
        if x.is_human_readable() {
            x.serialize_str(&self.text())
        } else {
            x.serialize_i64(self.0)
        }
    }
}
impl Serialize for S {
    fn serialize<X: Serializer>(&self, x: X) -> Result<X::Ok, X::Error> {
        if x.is_human_readable() {
            x.serialize_str(&self.text())
        } else {
            x.serialize_i64(self.0)
        }
    }
}
impl Serialize for I {
    fn serialize<X: Serializer>(&self, x: X) -> Result<X::Ok, X::Error> {
        if x.is_human_readable() {
            let s = self.text().ok_or_else(|| X::Error::custom("refused"))?;
            x.serialize_str(&s)
        } else {
            let mut s = x.serialize_struct("Interval", 3)?;
            s.serialize_field("time", &self.0)?;
            s.serialize_field("day", &(self.1 as i32))?;
            s.serialize_field("month", &(self.2 as i32))?;
            s.end()
        }
    }
}
#[derive(Serialize)]
struct Rec {
    id: u32,
    date: D,
    time: T,
    stamp: Option<S>,
    spans: Vec<I>,
}

/// The bytes the earlier release stores for a value, None where it refuses.
pub fn bytes(v: &VSpec, f: Fmt) -> Option<Vec<u8>> {
    let n = &v.n;
    let g = |i: usize| n.get(i).copied().unwrap_or(0);
    let i3 = |c: &[i64]| I(c[0], c[1] as i32 as i64, c[2] as i32 as i64);
    let ivs = |from: usize| -> Vec<I> { n.get(from..).unwrap_or(&[]).chunks_exact(3).map(i3).collect() };
    let mut b = vec![];
    let w = &mut b;
    match v.ty {
        Ty::Date => iofmt::wr(f, &D(g(0) as i32 as i64), w),
        Ty::Time => iofmt::wr(f, &T(g(0)), w),
        Ty::Ts => iofmt::wr(f, &S(g(0)), w),
        Ty::Iv => iofmt::wr(f, &i3(&[g(0), g(1), g(2)]), w),
        Ty::Rec => {
            let stamp = if g(3) % 2 == 0 { None } else { Some(S(g(4))) };
            iofmt::wr(f, &Rec { id: g(0) as u32, date: D(g(1) as i32 as i64), time: T(g(2)), stamp, spans: ivs(5) }, w)
        }
        Ty::Ivs => iofmt::wr(f, &ivs(0), w),
        Ty::Tss => iofmt::wr(f, &n.iter().map(|x| S(*x)).collect::<Vec<_>>(), w),
        Ty::ByDate => iofmt::wr(f, &ByDate(n.chunks_exact(2).map(|c| (c[0] as i32 as i64, c[1])).collect()), w),
        Ty::Tup => iofmt::wr(f, &(S(g(0)), D(g(1) as i32 as i64), T(g(2)), i3(&[g(3), g(4), g(5)])), w),
    }
    .ok()
    .map(|_| b)
}
struct ByDate(BTreeMap<i64, i64>);
impl Serialize for ByDate {
    fn serialize<X: Serializer>(&self, x: X) -> Result<X::Ok, X::Error> {
        x.collect_map(self.0.iter().map(|(d, t)| (D(*d), T(*t))))
    }
}
