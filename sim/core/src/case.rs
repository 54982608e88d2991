//! What a run is made of, written out: a case is one exactly repeatable execution.
use crate::sched::{Freeze, Plan};
use adapter::iofmt::{Fmt, Rec, Ty, Val};
use adapter::simfmt::Deliv;
use adapter::{iv, Date, Op, Time, Timestamp};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub pool: Vec<Op>,
    pub phases: Vec<Phase>,
}

/// One life of the simulated process; between phases it crashes and only durable bytes survive.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Phase {
    pub clients: Vec<Vec<Step>>,
    #[serde(default)]
    pub threads: bool,
    #[serde(default)]
    pub plan: Plan,
    #[serde(default)]
    pub freeze: Vec<Freeze>,
    #[serde(default)]
    pub first: usize,
    /// this life is served by the earlier release (the reference model of the stored form)
    #[serde(default)]
    pub old: bool,
    #[serde(default)]
    pub heap: u64,
    #[serde(default)]
    pub stack: u64,
    /// where the arguments and the stack of each call lie (0: always at the same place)
    #[serde(default)]
    pub place: u64,
    #[serde(default)]
    pub ambient: Option<u64>,
    /// fate of un-synced writes at the crash that ends this phase, one entry per pending write
    /// (cycled); empty: everything un-synced is lost
    #[serde(default)]
    pub fate: Vec<Fate>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fate {
    Kept,
    Lost,
    /// only the first n bytes reached the disk
    Torn(u32),
}

/// What a reader or writer does at its k-th call.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Short(u32),
    Intr,
    /// this call fails, later ones work again
    ErrOnce(u8),
    /// this and every later call fails
    ErrAll(u8),
    Zero,
    Panic,
    /// the callback calls the library itself: pool entries to run
    Reenter(Vec<u32>),
}
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Script {
    /// most bytes moved per call, 0 = no limit
    #[serde(default)]
    pub chunk: u32,
    #[serde(default)]
    pub acts: BTreeMap<u32, Act>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dmg {
    Flip(u32, u8),
    Trunc(u32),
    Drop(u32),
    Insert(u32, u8),
    Dup(u32, u32),
    Set(u32, Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct VSpec {
    pub ty: Ty,
    pub n: Vec<i64>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// a call whose result must be what the same call returns in a fresh process
    Call(u32),
    /// the same from a destructor when the thread ends; `late`: after the library's own
    /// thread-local state was first used, so that its destructors have not run yet
    AtExit { o: u32, late: bool },
    // -- storage
    Append { v: VSpec, f: Fmt, sink: Script },
    Sync { fail: bool },
    ReadAll { src: Script },
    // -- damaged or faulty source
    Damage { v: VSpec, f: Fmt, d: Vec<Dmg>, src: Script, slice: bool },
    Garbage { ty: Ty, f: Fmt, bytes: Vec<u8>, src: Script, slice: bool },
    // -- faulty sink
    Sink { v: VSpec, f: Fmt, sink: Script },
    Ser { v: VSpec, human: bool, at: u32, act: Act },
    // -- scripted decoding
    Deliver { ty: Ty, d: Deliv, human: bool, at: u32, act: Option<Act> },
    /// n calls drawn from the seed, results ignored; memory retained is what is looked at
    Churn { seed: u64, n: u32, kinds: u8 },
    // -- replicated machines over the library's values
    Repl(crate::repl::Spec),
    Index(crate::repl::IxSpec),
}

impl VSpec {
    pub fn ints(ty: Ty) -> usize {
        match ty {
            Ty::Date | Ty::Time | Ty::Ts => 1,
            Ty::Iv => 3,
            _ => 0,
        }
    }
    pub fn build(&self) -> Val {
        let n = &self.n;
        let g = |i: usize| n.get(i).copied().unwrap_or(0);
        let ivs = |from: usize| -> Vec<adapter::Interval> {
            (0..n.len().saturating_sub(from) / 3).map(|i| iv(g(from + 3 * i), g(from + 3 * i + 1), g(from + 3 * i + 2))).collect()
        };
        match self.ty {
            Ty::Date => Val::Date(Date::from(g(0) as i32)),
            Ty::Time => Val::Time(Time::from(g(0))),
            Ty::Ts => Val::Ts(Timestamp::from(g(0))),
            Ty::Iv => Val::Iv(iv(g(0), g(1), g(2))),
            Ty::Rec => Val::Rec(Rec {
                id: g(0) as u32,
                date: Date::from(g(1) as i32),
                time: Time::from(g(2)),
                stamp: if g(3) % 2 == 0 { None } else { Some(Timestamp::from(g(4))) },
                spans: ivs(5),
            }),
            Ty::Ivs => Val::Ivs(ivs(0)),
            Ty::Tss => Val::Tss(n.iter().map(|x| Timestamp::from(*x)).collect()),
            Ty::ByDate => Val::ByDate(n.chunks_exact(2).map(|c| (Date::from(c[0] as i32), Time::from(c[1]))).collect()),
            Ty::Tup => Val::Tup((Timestamp::from(g(0)), Date::from(g(1) as i32), Time::from(g(2)), iv(g(3), g(4), g(5)))),
        }
    }
    /// whether the text encodings are allowed to refuse (an hour count that does not fit 32 bits,
    /// as PostgreSQL refuses it)
    pub fn may_refuse(&self) -> bool {
        let big = |t: i64| !(-(i32::MAX as i64)..=i32::MAX as i64).contains(&(t / 3_600_000_000));
        let from = match self.ty {
            Ty::Iv | Ty::Ivs => 0,
            Ty::Rec => 5,
            Ty::Tup => 3,
            _ => return false,
        };
        self.n.get(from..).unwrap_or(&[]).chunks(3).any(|c| big(c[0]))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
    #[serde(default)]
    pub client: usize,
    #[serde(default)]
    pub step: usize,
}

/// The simulated disk: one append-only file per client.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct File {
    pub durable: Vec<u8>,
    pub pending: Vec<Vec<u8>>,
    /// what was appended
    pub log: Vec<Stored>,
    /// how many of them were acknowledged as durable
    pub acked: usize,
    /// append under way
    pub inflight: Option<Stored>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Stored {
    pub ty: Ty,
    pub f: Fmt,
    /// rendering of the value
    pub want: String,
    /// offset one past its last byte
    pub end: usize,
    /// what the earlier release writes for it (mixed releases only)
    pub form: Option<Vec<u8>>,
}
impl File {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.durable.clone();
        for p in &self.pending {
            v.extend_from_slice(p);
        }
        v
    }
    pub fn crash(&mut self, fate: &[Fate], counts: &mut BTreeMap<String, u64>) {
        // an append-only file: bytes beyond the first lost one cannot be there
        let pend = std::mem::take(&mut self.pending);
        for (i, p) in pend.iter().enumerate() {
            let f = if fate.is_empty() { &Fate::Lost } else { &fate[i % fate.len()] };
            match f {
                Fate::Kept => {
                    *counts.entry("crash.kept".into()).or_default() += 1;
                    self.durable.extend_from_slice(p)
                }
                Fate::Lost => {
                    *counts.entry("crash.lost_write".into()).or_default() += 1;
                    break;
                }
                Fate::Torn(n) => {
                    *counts.entry("crash.torn_write".into()).or_default() += 1;
                    let n = (*n as usize) % (p.len() + 1);
                    self.durable.extend_from_slice(&p[..n]);
                    break;
                }
            }
        }
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub counts: BTreeMap<String, u64>,
    pub log: u64,
    pub ihash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub files: Vec<File>,
    pub results: Vec<String>,
    pub trace: Vec<crate::sched::Switch>,
    pub finished: bool,
}
