//! Thin, instrumented layer that turns explicit operation records into calls of the public API of
//! the code under test. It contains no oracle: it calls, and hands back what came out.
pub mod iofmt;
pub mod simfmt;

pub use pgdatetime::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

/// One call of the public API. `n` holds integer arguments (floats as bits), `e` enum arguments.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Op {
    pub k: K,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub s: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub n: Vec<i64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub e: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum K {
    DateYmd, DateAddDays, DateSubDays, DateSubDate, DateAddIv, DateSubIv, DateAddTime, DateParse, DateFmt,
    DateFromTs, DatePart, DateTrunc, DateFinite, DateCmp, DateCmpTs,
    TimeHms, TimeParse, TimeFmt, TimeAddIv, TimeSubIv, TimeSubTime, TimeFromTs, TimeFromIv, TimePart,
    TimeTrunc, TimeCmp,
    TsYmdHms, TsParse, TsFmt, TsAddIv, TsAddTime, TsSubIv, TsSubDate, TsSubTime, TsSubTs, TsAge, TsFromDate,
    TsPart, TsTrunc, TsFinite, TsCmp,
    IvYmwdHms, IvParse, IvFmt, IvAdd, IvSub, IvNeg, IvJHours, IvJDays, IvJIv, IvMul, IvDiv, IvCmp, IvToI128,
    IvFromTime, IvPart, IvTrunc, IvPlus,
    DateJson, TimeJson, TsJson, IvJson, DateUnjson, TimeUnjson, TsUnjson, IvUnjson,
    DateBin, TimeBin, TsBin, IvBin, DateUnbin, TimeUnbin, TsUnbin, IvUnbin,
}
pub const KINDS: &[K] = &[
    K::DateYmd, K::DateAddDays, K::DateSubDays, K::DateSubDate, K::DateAddIv, K::DateSubIv, K::DateAddTime,
    K::DateParse, K::DateFmt, K::DateFromTs, K::DatePart, K::DateTrunc, K::DateFinite, K::DateCmp, K::DateCmpTs,
    K::TimeHms, K::TimeParse, K::TimeFmt, K::TimeAddIv, K::TimeSubIv, K::TimeSubTime, K::TimeFromTs,
    K::TimeFromIv, K::TimePart, K::TimeTrunc, K::TimeCmp, K::TsYmdHms, K::TsParse, K::TsFmt, K::TsAddIv,
    K::TsAddTime, K::TsSubIv, K::TsSubDate, K::TsSubTime, K::TsSubTs, K::TsAge, K::TsFromDate, K::TsPart,
    K::TsTrunc, K::TsFinite, K::TsCmp, K::IvYmwdHms, K::IvParse, K::IvFmt, K::IvAdd, K::IvSub, K::IvNeg,
    K::IvJHours, K::IvJDays, K::IvJIv, K::IvMul, K::IvDiv, K::IvCmp, K::IvToI128, K::IvFromTime, K::IvPart,
    K::IvTrunc, K::IvPlus, K::DateJson, K::TimeJson, K::TsJson, K::IvJson, K::DateUnjson, K::TimeUnjson,
    K::TsUnjson, K::IvUnjson, K::DateBin, K::TimeBin, K::TsBin, K::IvBin, K::DateUnbin, K::TimeUnbin,
    K::TsUnbin, K::IvUnbin,
];

/// What a call returned, before anybody looks at it.
#[derive(Debug)]
pub enum Res {
    Bool(bool),
    I32(i32),
    I128(i128),
    U64s(Vec<u64>),
    F(f64),
    Date(Date),
    Time(Time),
    OptTime(Option<Time>),
    Ts(Timestamp),
    Iv(Interval),
    S(String),
    B(Vec<u8>),
    Err(DateTimeError),
    SErr(String),
}

pub fn order(e: u8) -> DateOrder {
    match e % 3 {
        0 => DateOrder::YMD,
        1 => DateOrder::DMY,
        _ => DateOrder::MDY,
    }
}
pub fn style(e: u8) -> DateStyle {
    match e % 5 {
        0 => DateStyle::Postgres,
        1 => DateStyle::ISO,
        2 => DateStyle::SQL,
        3 => DateStyle::German,
        _ => DateStyle::XSD,
    }
}
pub fn istyle(e: u8) -> IntervalStyle {
    match e % 4 {
        0 => IntervalStyle::Postgres,
        1 => IntervalStyle::PostgresVerbose,
        2 => IntervalStyle::SQLStandard,
        _ => IntervalStyle::ISO8601,
    }
}
pub fn unit(e: u8) -> DateUnit {
    use DateUnit::*;
    [
        Delta, Second, Minute, Hour, Day, Week, Month, Quarter, Year, Decade, Century, MilliSec, MicroSec, JULIAN,
        Dow, IsoDow, Doy, Tz, TzMinute, TzHour, Millennium, IsoYear, Epoch,
    ][e as usize % 23]
}
pub fn ftype(e: u8) -> FieldType {
    if e % 2 == 0 {
        FieldType::Unit
    } else {
        FieldType::Epoch
    }
}

/// Builds an interval from its three parts through the public binary decoding entry point.
pub fn iv(time: i64, day: i64, month: i64) -> Interval {
    simfmt::iv_from_parts(time, day as i32, month as i32)
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn r<T>(x: Result<T, DateTimeError>, f: impl FnOnce(T) -> Res) -> Res {
    match x {
        Ok(v) => f(v),
        Err(e) => Res::Err(e),
    }
}
fn j<T>(x: Result<T, serde_json::Error>, f: impl FnOnce(T) -> Res) -> Res {
    match x {
        Ok(v) => f(v),
        Err(e) => Res::SErr(e.to_string()),
    }
}
fn b<T>(x: Result<T, bincode::Error>, f: impl FnOnce(T) -> Res) -> Res {
    match x {
        Ok(v) => f(v),
        Err(e) => Res::SErr(e.to_string()),
    }
}
fn cmps<T: PartialEq + PartialOrd + Ord + Hash>(x: T, y: T) -> Res {
    Res::U64s(vec![
        (x == y) as u64,
        x.partial_cmp(&y).map(|o| o as i64 as u64).unwrap_or(77),
        x.cmp(&y) as i64 as u64,
        hash(&x),
        hash(&y),
    ])
}

/// `s` is the text argument (passed apart from `op` so that the caller decides where it lives).
pub fn exec(op: &Op, s: &str) -> Res {
    let n = |i: usize| op.n.get(i).copied().unwrap_or(0);
    let i = |i: usize| n(i) as i32;
    let f = |i: usize| f64::from_bits(n(i) as u64);
    let e = |i: usize| op.e.get(i).copied().unwrap_or(0);
    let d = |k: usize| Date::from(i(k));
    let t = |k: usize| Time::from(n(k));
    let ts = |k: usize| Timestamp::from(n(k));
    let v = |k: usize| iv(n(k), n(k + 1), n(k + 2));
    match op.k {
        K::DateYmd => r(Date::try_from_ymd(i(0), i(1), i(2)), Res::Date),
        K::DateAddDays => r(d(0).add_days(i(1)), Res::Date),
        K::DateSubDays => r(d(0).sub_days(i(1)), Res::Date),
        K::DateSubDate => r(d(0).sub_date(d(1)), Res::I32),
        K::DateAddIv => r(d(0).add_interval(v(1)), Res::Ts),
        K::DateSubIv => r(d(0).sub_interval(v(1)), Res::Ts),
        K::DateAddTime => r(d(0).add_time(t(1)), Res::Ts),
        K::DateParse => r(Date::try_from_str(s, order(e(0))), Res::Date),
        K::DateFmt => r(d(0).format(style(e(0)), order(e(1))), Res::S),
        K::DateFromTs => r(Date::try_from(ts(0)), Res::Date),
        K::DatePart => r(d(0).date_part(ftype(e(0)), unit(e(1))), Res::F),
        K::DateTrunc => r(d(0).truncate(ftype(e(0)), unit(e(1))), Res::Date),
        K::DateFinite => Res::U64s(vec![d(0).is_finite() as u64, d(0).is_infinite() as u64]),
        K::DateCmp => cmps(d(0), d(1)),
        K::DateCmpTs => Res::I32(i32::from(d(0))),
        K::TimeHms => r(Time::try_from_hms(i(0), i(1), f(2)), Res::Time),
        K::TimeParse => r(Time::try_from_str(s, i(0), order(e(0))), Res::Time),
        K::TimeFmt => r(t(0).format(style(e(0))), Res::S),
        K::TimeAddIv => Res::Time(t(0).add_interval(v(1))),
        K::TimeSubIv => Res::Time(t(0).sub_interval(v(1))),
        K::TimeSubTime => Res::Iv(t(0).sub_time(t(1))),
        K::TimeFromTs => r(Option::<Time>::try_from(ts(0)), Res::OptTime),
        K::TimeFromIv => Res::Time(Time::from(v(0))),
        K::TimePart => r(t(0).date_part(ftype(e(0)), unit(e(1))), Res::F),
        K::TimeTrunc => r(t(0).truncate(ftype(e(0)), unit(e(1))), Res::Time),
        K::TimeCmp => cmps(t(0), t(1)),
        K::TsYmdHms => r(Timestamp::try_from_ymd_hms(i(0), i(1), i(2), i(3), i(4), f(5)), Res::Ts),
        K::TsParse => r(Timestamp::try_from_str(s, i(0), order(e(0))), Res::Ts),
        K::TsFmt => r(ts(0).format(style(e(0)), order(e(1))), Res::S),
        K::TsAddIv => r(ts(0).add_interval(v(1)), Res::Ts),
        K::TsAddTime => r(ts(0).add_time(t(1)), Res::Ts),
        K::TsSubIv => r(ts(0).sub_interval(v(1)), Res::Ts),
        K::TsSubDate => r(ts(0).sub_date(d(1)), Res::Iv),
        K::TsSubTime => r(ts(0).sub_time(t(1)), Res::Ts),
        K::TsSubTs => r(ts(0).sub_timestamp(ts(1)), Res::Iv),
        K::TsAge => r(ts(0).age(ts(1)), Res::Iv),
        K::TsFromDate => r(Timestamp::try_from(d(0)), Res::Ts),
        K::TsPart => r(ts(0).date_part(ftype(e(0)), unit(e(1))), Res::F),
        K::TsTrunc => r(ts(0).truncate(ftype(e(0)), unit(e(1))), Res::Ts),
        K::TsFinite => Res::U64s(vec![ts(0).is_finite() as u64, ts(0).is_infinite() as u64]),
        K::TsCmp => cmps(ts(0), ts(1)),
        K::IvYmwdHms => {
            r(Interval::try_from_ymwd_hms(i(0), i(1), i(2), i(3), i(4), i(5), f(6)), Res::Iv)
        }
        K::IvParse => r(Interval::try_from_str(s, i(0), istyle(e(0))), Res::Iv),
        K::IvFmt => r(v(0).format(istyle(e(0))), Res::S),
        K::IvAdd => r(v(0).add_interval(v(3)), Res::Iv),
        K::IvSub => r(v(0).sub_interval(v(3)), Res::Iv),
        K::IvNeg => r(v(0).negate(), Res::Iv),
        K::IvJHours => Res::Iv(v(0).justify_hours()),
        K::IvJDays => Res::Iv(v(0).justify_days()),
        K::IvJIv => Res::Iv(v(0).justify_interval()),
        K::IvMul => r(v(0).mul_f64(f(3)), Res::Iv),
        K::IvDiv => r(v(0).div_f64(f(3)), Res::Iv),
        K::IvCmp => cmps(v(0), v(3)),
        K::IvToI128 => Res::I128(i128::from(v(0))),
        K::IvFromTime => Res::Iv(Interval::from(t(0))),
        K::IvPart => r(v(0).date_part(ftype(e(0)), unit(e(1))), Res::F),
        K::IvTrunc => r(v(0).truncate(ftype(e(0)), unit(e(1))), Res::Iv),
        K::IvPlus => Res::Iv(v(0) + v(3)),
        K::DateJson => j(serde_json::to_string(&d(0)), Res::S),
        K::TimeJson => j(serde_json::to_string(&t(0)), Res::S),
        K::TsJson => j(serde_json::to_string(&ts(0)), Res::S),
        K::IvJson => j(serde_json::to_string(&v(0)), Res::S),
        K::DateUnjson => j(serde_json::from_str(s), Res::Date),
        K::TimeUnjson => j(serde_json::from_str(s), Res::Time),
        K::TsUnjson => j(serde_json::from_str(s), Res::Ts),
        K::IvUnjson => j(serde_json::from_str(s), Res::Iv),
        K::DateBin => b(bincode::serialize(&d(0)), Res::B),
        K::TimeBin => b(bincode::serialize(&t(0)), Res::B),
        K::TsBin => b(bincode::serialize(&ts(0)), Res::B),
        K::IvBin => b(bincode::serialize(&v(0)), Res::B),
        K::DateUnbin => b(bincode::deserialize(&i(0).to_le_bytes()), Res::Date),
        K::TimeUnbin => b(bincode::deserialize(&n(0).to_le_bytes()), Res::Time),
        K::TsUnbin => b(bincode::deserialize(&n(0).to_le_bytes()), Res::Ts),
        K::IvUnbin => {
            let mut x = n(0).to_le_bytes().to_vec();
            x.extend_from_slice(&i(1).to_le_bytes());
            x.extend_from_slice(&i(2).to_le_bytes());
            b(bincode::deserialize(&x), Res::Iv)
        }
    }
}
