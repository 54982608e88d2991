//! Encoding and decoding of library values through real serde formats over caller-supplied
//! readers and writers.
use bincode::Options;
use pgdatetime::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fmt {
    Json,
    JsonPretty,
    JsonValue,
    Bincode,
    BincodeVarBig,
    Cbor,
}
pub const FMTS: &[Fmt] =
    &[Fmt::Json, Fmt::JsonPretty, Fmt::JsonValue, Fmt::Bincode, Fmt::BincodeVarBig, Fmt::Cbor];

impl Fmt {
    pub fn human(self) -> bool {
        matches!(self, Fmt::Json | Fmt::JsonPretty | Fmt::JsonValue)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub id: u32,
    pub date: Date,
    pub time: Time,
    pub stamp: Option<Timestamp>,
    pub spans: Vec<Interval>,
}

/// The shapes in which values travel.
#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Date(Date),
    Time(Time),
    Ts(Timestamp),
    Iv(Interval),
    Rec(Rec),
    Ivs(Vec<Interval>),
    Tss(Vec<Timestamp>),
    ByDate(BTreeMap<Date, Time>),
    Tup((Timestamp, Date, Time, Interval)),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty {
    Date, Time, Ts, Iv, Rec, Ivs, Tss, ByDate, Tup,
}

pub fn wr<T: Serialize>(f: Fmt, v: &T, w: &mut dyn Write) -> Result<(), String> {
    match f {
        Fmt::Json => serde_json::to_writer(w, v).map_err(|e| e.to_string()),
        Fmt::JsonPretty => serde_json::to_writer_pretty(w, v).map_err(|e| e.to_string()),
        Fmt::JsonValue => {
            let x = serde_json::to_value(v).map_err(|e| e.to_string())?;
            serde_json::to_writer(w, &x).map_err(|e| e.to_string())
        }
        Fmt::Bincode => bincode::serialize_into(w, v).map_err(|e| e.to_string()),
        Fmt::BincodeVarBig => bincode::DefaultOptions::new()
            .with_big_endian()
            .serialize_into(w, v)
            .map_err(|e| e.to_string()),
        Fmt::Cbor => ciborium::ser::into_writer(v, w).map_err(|e| e.to_string()),
    }
}

fn rd<T: DeserializeOwned>(f: Fmt, r: &mut dyn Read) -> Result<T, String> {
    match f {
        // one value, leaving the rest of the stream alone
        Fmt::Json | Fmt::JsonPretty => {
            let mut de = serde_json::Deserializer::from_reader(r);
            T::deserialize(&mut de).map_err(|e| e.to_string())
        }
        Fmt::JsonValue => {
            let mut de = serde_json::Deserializer::from_reader(r);
            let v = serde_json::Value::deserialize(&mut de).map_err(|e| e.to_string())?;
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
        Fmt::Bincode => bincode::deserialize_from(r).map_err(|e| e.to_string()),
        Fmt::BincodeVarBig => bincode::DefaultOptions::new()
            .with_big_endian()
            .allow_trailing_bytes()
            .deserialize_from(r)
            .map_err(|e| e.to_string()),
        Fmt::Cbor => ciborium::de::from_reader(r).map_err(|e| e.to_string()),
    }
}

fn sl<T: DeserializeOwned>(f: Fmt, b: &[u8]) -> Result<T, String> {
    match f {
        Fmt::Json | Fmt::JsonPretty => serde_json::from_slice(b).map_err(|e| e.to_string()),
        Fmt::JsonValue => {
            let v: serde_json::Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
        Fmt::Bincode => bincode::deserialize(b).map_err(|e| e.to_string()),
        Fmt::BincodeVarBig => {
            bincode::DefaultOptions::new().with_big_endian().deserialize(b).map_err(|e| e.to_string())
        }
        Fmt::Cbor => ciborium::de::from_reader(b).map_err(|e| e.to_string()),
    }
}

pub fn encode(f: Fmt, v: &Val, w: &mut dyn Write) -> Result<(), String> {
    match v {
        Val::Date(x) => wr(f, x, w),
        Val::Time(x) => wr(f, x, w),
        Val::Ts(x) => wr(f, x, w),
        Val::Iv(x) => wr(f, x, w),
        Val::Rec(x) => wr(f, x, w),
        Val::Ivs(x) => wr(f, x, w),
        Val::Tss(x) => wr(f, x, w),
        Val::ByDate(x) => wr(f, x, w),
        Val::Tup(x) => wr(f, x, w),
    }
}

pub fn decode(f: Fmt, t: Ty, r: &mut dyn Read) -> Result<Val, String> {
    match t {
        Ty::Date => rd(f, r).map(Val::Date),
        Ty::Time => rd(f, r).map(Val::Time),
        Ty::Ts => rd(f, r).map(Val::Ts),
        Ty::Iv => rd(f, r).map(Val::Iv),
        Ty::Rec => rd(f, r).map(Val::Rec),
        Ty::Ivs => rd(f, r).map(Val::Ivs),
        Ty::Tss => rd(f, r).map(Val::Tss),
        Ty::ByDate => rd(f, r).map(Val::ByDate),
        Ty::Tup => rd(f, r).map(Val::Tup),
    }
}

/// Decodes a slice (borrowed-data path of the formats).
pub fn decode_slice(f: Fmt, t: Ty, b: &[u8]) -> Result<Val, String> {
    match t {
        Ty::Date => sl(f, b).map(Val::Date),
        Ty::Time => sl(f, b).map(Val::Time),
        Ty::Ts => sl(f, b).map(Val::Ts),
        Ty::Iv => sl(f, b).map(Val::Iv),
        Ty::Rec => sl(f, b).map(Val::Rec),
        Ty::Ivs => sl(f, b).map(Val::Ivs),
        Ty::Tss => sl(f, b).map(Val::Tss),
        Ty::ByDate => sl(f, b).map(Val::ByDate),
        Ty::Tup => sl(f, b).map(Val::Tup),
    }
}

impl Val {
    pub fn ty(&self) -> Ty {
        match self {
            Val::Date(_) => Ty::Date,
            Val::Time(_) => Ty::Time,
            Val::Ts(_) => Ty::Ts,
            Val::Iv(_) => Ty::Iv,
            Val::Rec(_) => Ty::Rec,
            Val::Ivs(_) => Ty::Ivs,
            Val::Tss(_) => Ty::Tss,
            Val::ByDate(_) => Ty::ByDate,
            Val::Tup(_) => Ty::Tup,
        }
    }
    pub fn leaves(&self) -> Vec<Val> {
        match self {
            Val::Rec(r) => {
                let mut v = vec![Val::Date(r.date), Val::Time(r.time)];
                v.extend(r.stamp.iter().map(|x| Val::Ts(*x)));
                v.extend(r.spans.iter().map(|x| Val::Iv(*x)));
                v
            }
            Val::Ivs(x) => x.iter().map(|x| Val::Iv(*x)).collect(),
            Val::Tss(x) => x.iter().map(|x| Val::Ts(*x)).collect(),
            Val::ByDate(m) => m.iter().flat_map(|(d, t)| [Val::Date(*d), Val::Time(*t)]).collect(),
            Val::Tup(t) => vec![Val::Ts(t.0), Val::Date(t.1), Val::Time(t.2), Val::Iv(t.3)],
            x => vec![x.clone()],
        }
    }
}

#[allow(unused)]
fn _unused(_: io::Error) {}
