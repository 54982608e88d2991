//! For every property: how its cases are drawn.
use crate::case::*;
use crate::{gen, replgen};
use crate::hooks::NCLASS;
use crate::rng::Rng;
use crate::sched::{Freeze, Plan};
use adapter::iofmt::{Fmt, Ty, FMTS};
use adapter::simfmt::Deliv;
use adapter::Op;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// batches and runs per batch, quick and thorough
    pub quick: (u64, u64),
    pub thorough: (u64, u64),
    pub pool: usize,
    pub rule: &'static str,
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", level: "exploration", quick: (480, 40), thorough: (12000, 40), pool: 160,
        rule: "a run is a history of calls on one or several successive threads; non-trivial: at least two different calls" },
    Prop { id: "C02", level: "exploration", quick: (1200, 60), thorough: (30000, 60), pool: 60,
        rule: "a run is 2-5 caller threads and a seeded schedule; non-trivial: at least one preemption inside a call, distinct by schedule hash" },
    Prop { id: "C03", level: "exploration", quick: (1200, 60), thorough: (30000, 60), pool: 60,
        rule: "a run stalls one or more threads for ever at seeded points inside calls; non-trivial: the stall happened inside a call while another thread still had calls to make" },
    Prop { id: "C04", level: "exploration", quick: (1200, 40), thorough: (30000, 40), pool: 160,
        rule: "a run poisons fresh heap blocks and the dead stack with a seeded pattern; non-trivial: at least one block was filled" },
    Prop { id: "C05", level: "exploration", quick: (1600, 30), thorough: (40000, 30), pool: 160,
        rule: "a run gives calls a wild clock, environment, randomness, pid and file system; non-trivial: at least two different calls" },
    Prop { id: "C06", level: "exploration", quick: (480, 100), thorough: (12000, 100), pool: 0,
        rule: "a run is 1-3 lives of a store separated by crashes; non-trivial: at least one record was read back" },
    Prop { id: "C07", level: "exploration", quick: (720, 100), thorough: (18000, 100), pool: 0,
        rule: "a run decodes stored values after seeded damage; non-trivial: at least one decode of damaged bytes" },
    Prop { id: "C08", level: "exploration", quick: (1600, 80), thorough: (40000, 80), pool: 0,
        rule: "a run encodes into sinks that fail at seeded calls; non-trivial: at least one fault fired" },
    Prop { id: "C09", level: "exploration", quick: (1600, 80), thorough: (40000, 80), pool: 0,
        rule: "a run feeds scripted deliveries to the visitors; non-trivial: at least one scripted decode" },
    Prop { id: "C10", level: "exploration", quick: (1200, 50), thorough: (30000, 50), pool: 80,
        rule: "a run re-enters the library from, or unwinds through, callbacks it makes; non-trivial: at least one re-entry or unwinding happened" },
    Prop { id: "C11", level: "exploration", quick: (240, 1), thorough: (6000, 1), pool: 0,
        rule: "a run makes tens of thousands of distinct calls and watches the bytes left allocated; non-trivial: all" },
    Prop { id: "C12", level: "exploration", quick: (480, 100), thorough: (12000, 100), pool: 0,
        rule: "a run is 2-4 lives of a store under the old or the new release, separated by crashes; non-trivial: both releases served and at least one record was read back" },
    Prop { id: "C13", level: "exploration", quick: (1200, 60), thorough: (30000, 60), pool: 0,
        rule: "a run replicates values written as text in one style through a faulty network and crashing replicas; non-trivial: at least one value was read back" },
    Prop { id: "C14", level: "exploration", quick: (1200, 60), thorough: (30000, 60), pool: 0,
        rule: "a run keeps replicated indexes over values under reordering, duplication and rebuilds; non-trivial: at least one whole index was compared" },
    Prop { id: "C15", level: "exploration", quick: (1200, 60), thorough: (30000, 60), pool: 0,
        rule: "a run is a history of construction and conversion commands on a replicated machine with faults; non-trivial: at least one reply was judged" },
    Prop { id: "C16", level: "exploration", quick: (1200, 60), thorough: (30000, 60), pool: 0,
        rule: "a run is a history of arithmetic commands on a replicated machine with faults; non-trivial: at least one reply was judged" },
    Prop { id: "C17", level: "exploration", quick: (1200, 60), thorough: (30000, 60), pool: 0,
        rule: "a run is a history of field and precision commands on a replicated machine with faults; non-trivial: at least one reply was judged" },
    Prop { id: "C18", level: "exploration", quick: (1200, 60), thorough: (30000, 60), pool: 0,
        rule: "a run is a history of commands on extreme operands on a replicated machine with faults and clock jumps; non-trivial: at least one reply was judged" },
    Prop { id: "C19", level: "exploration", quick: (1200, 60), thorough: (30000, 60), pool: 0,
        rule: "a run feeds documented spellings to a replicated machine with faults; non-trivial: at least one reply was judged" },
    Prop { id: "C20", level: "exploration", quick: (1200, 60), thorough: (30000, 60), pool: 0,
        rule: "a run feeds texts that name no value, and some that do, to a replicated machine with faults; non-trivial: at least one reply was judged" },
];

fn calls(r: &mut Rng, hot: &[u32], n: usize) -> Vec<Step> {
    (0..n).map(|_| Step::Call(*r.pick(hot))).collect()
}
/// a few calls, mostly neighbours in the pool (which are variations of one another)
fn hot(r: &mut Rng, pool: &[Op], n: usize) -> Vec<u32> {
    let mut v = vec![];
    while v.len() < n {
        let i = r.us(pool.len());
        v.push(i as u32);
        if r.chance(2, 3) && v.len() < n {
            v.push(((i + 1) % pool.len()) as u32);
        }
    }
    v
}
pub fn rand_plan(r: &mut Rng) -> Plan {
    let mut mean = [0; NCLASS];
    for (c, m) in mean.iter_mut().enumerate() {
        if c == 0 || r.chance(2, 3) {
            *m = *r.pick(&[15u64, 60, 250, 1000, 4000, 20000]);
        }
        if c == 1 || c == 5 {
            // accesses to process-wide memory are where threads meet
            *m = *r.pick(&[2u64, 3, 8, 30]);
        }
    }
    if r.chance(1, 4) {
        mean[0] = *r.pick(&[4u64, 8]);
    }
    Plan::Random { seed: r.u64(), mean }
}
fn pattern(r: &mut Rng) -> u64 {
    (r.u64() << 8) | (1 + r.below(7))
}

pub fn vspec(r: &mut Rng, leaf_only: bool) -> VSpec {
    let ty = if leaf_only || r.chance(3, 4) {
        *r.pick(&[Ty::Date, Ty::Time, Ty::Ts, Ty::Ts, Ty::Iv, Ty::Iv])
    } else {
        *r.pick(&[Ty::Rec, Ty::Ivs, Ty::Tss, Ty::ByDate, Ty::Tup])
    };
    let mut n = vec![];
    let iv = |r: &mut Rng, n: &mut Vec<i64>| {
        let (a, b, c) = gen::iv_val(r);
        n.extend([a, b, c]);
    };
    match ty {
        Ty::Date => n.push(gen::date_val(r)),
        Ty::Time => n.push(gen::time_val(r)),
        Ty::Ts => n.push(gen::ts_val(r)),
        Ty::Iv => iv(r, &mut n),
        Ty::Rec => {
            n.extend([r.below(1 << 32) as i64, gen::date_val(r), gen::time_val(r), r.range(0, 1), gen::ts_val(r)]);
            for _ in 0..r.below(4) {
                iv(r, &mut n);
            }
        }
        Ty::Ivs => {
            for _ in 0..r.below(6) {
                iv(r, &mut n);
            }
        }
        Ty::Tss => {
            for _ in 0..r.below(6) {
                n.push(gen::ts_val(r));
            }
        }
        Ty::ByDate => {
            for _ in 0..r.below(5) {
                n.extend([gen::date_val(r), gen::time_val(r)]);
            }
        }
        Ty::Tup => {
            n.extend([gen::ts_val(r), gen::date_val(r), gen::time_val(r)]);
            iv(r, &mut n);
        }
    }
    VSpec { ty, n }
}

/// faults a correct stream user never notices
fn benign(r: &mut Rng) -> Script {
    let mut s = Script { chunk: *r.pick(&[0, 0, 1, 2, 3, 7, 64]), ..Script::default() };
    for _ in 0..r.below(4) {
        let k = r.below(24) as u32;
        s.acts.insert(k, if r.chance(1, 2) { Act::Intr } else { Act::Short(1 + r.below(5) as u32) });
    }
    s
}
fn hard(r: &mut Rng) -> Script {
    let mut s = benign(r);
    let a = match r.below(4) {
        0 | 1 => Act::ErrOnce(r.below(7) as u8),
        2 => Act::ErrAll(r.below(7) as u8),
        _ => Act::Zero,
    };
    let k = if r.chance(1, 2) { r.below(4) } else { r.below(30) } as u32;
    s.acts.insert(k, a);
    s
}

fn store_phase(r: &mut Rng, last: bool) -> Phase {
    let nc = 1 + r.us(3);
    let threads = r.chance(1, 4);
    let faulty = r.chance(1, 2);
    let mut clients = vec![];
    for _ in 0..nc {
        let mut v = vec![];
        for _ in 0..2 + r.us(10) {
            let k = r.below(10);
            v.push(if k < 6 {
                let sink = if faulty && r.chance(1, 4) { hard(r) } else { benign(r) };
                Step::Append { v: vspec(r, false), f: *r.pick(FMTS), sink }
            } else if k < 8 {
                Step::Sync { fail: faulty && r.chance(1, 5) }
            } else {
                Step::ReadAll { src: if faulty && r.chance(1, 3) { hard(r) } else { benign(r) } }
            });
        }
        if last {
            v.push(Step::ReadAll { src: benign(r) });
        }
        clients.push(v);
    }
    let mut ph = Phase { clients, threads, first: r.us(nc), ..Phase::default() };
    if threads {
        ph.plan = rand_plan(r);
        if !last && r.chance(2, 3) {
            // the process dies while calls are under way
            for t in 0..nc {
                ph.freeze.push(Freeze { t, at: 1 + r.below(120_000) });
            }
        }
    }
    for _ in 0..r.below(5) {
        ph.fate.push(match r.below(4) {
            0 | 1 => Fate::Kept,
            2 => Fate::Torn(r.below(64) as u32),
            _ => Fate::Lost,
        });
    }
    ph
}

fn dmg(r: &mut Rng) -> Dmg {
    let i = if r.chance(1, 2) { r.below(40) } else { r.below(200) } as u32;
    match r.below(12) {
        0..=2 => Dmg::Flip(i, r.below(8) as u8),
        3 | 4 => Dmg::Trunc(i),
        5 => Dmg::Drop(i),
        6 | 7 => Dmg::Insert(i, *r.pick(b"0123456789 +-./:TtZ@,ymdhsabc\"")),
        8 => Dmg::Dup(i, *r.pick(&[0, 1, 3, 8, 40])),
        9 => Dmg::Set(i, vec![*r.pick(&[0u8, 0xff, 0x7f, 0x80, b'9', b'-', b' ']); 1 + r.us(8)]),
        10 => Dmg::Set(0, r.u64().to_le_bytes()[..1 + r.us(8)].to_vec()),
        _ => Dmg::Insert(i, r.below(256) as u8),
    }
}

fn garbage(r: &mut Rng) -> Step {
    let ty = *r.pick(&[Ty::Date, Ty::Time, Ty::Ts, Ty::Iv]);
    let which = match ty {
        Ty::Date => 0,
        Ty::Time => 1,
        Ty::Ts => 2,
        _ => 3,
    };
    let f = *r.pick(&[Fmt::Json, Fmt::Json, Fmt::Json, Fmt::JsonValue, Fmt::Bincode, Fmt::BincodeVarBig, Fmt::Cbor]);
    let bytes = if f.human() {
        let mut s = match r.below(10) {
            8 | 9 => {
                // long ones whose characters are wider than a byte, or of which one is
                let most = *r.pick(&[24usize, 25, 30, 50, 64, 96, 100, 127, 128, 129, 255, 256, 300]);
                let wide = *r.pick(&["\u{e9}", "\u{4e00}", "\u{1f600}", "\u{3000}", "\u{660}", "\u{b5}"]);
                let mut s = if r.chance(2, 3) { gen::text(r, which) } else { String::new() };
                if r.chance(1, 2) {
                    // from some byte on, so that every place falls inside of a character now and then
                    s += &" ".repeat(r.us(5));
                    while s.len() < most {
                        s += wide;
                    }
                } else {
                    let fill = *r.pick(&["0", " ", "9", "a"]);
                    while s.len() < most {
                        s += fill;
                    }
                    let i = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect::<Vec<_>>();
                    for _ in 0..1 + r.us(6) {
                        let at = *r.pick(&i);
                        if s.is_char_boundary(at) {
                            s.insert_str(at, wide);
                        }
                    }
                }
                s
            }
            0 => {
                // two halves of different records
                let (a, b) = (gen::text(r, which), gen::text(r, which));
                let i = r.us(a.chars().count() + 1);
                let j = r.us(b.chars().count() + 1);
                a.chars().take(i).chain(b.chars().skip(j)).collect()
            }
            1 => {
                let a = gen::text(r, which);
                a.repeat(1 + r.us(12))
            }
            2 => (0..1 + r.us(60)).map(|_| *r.pick(b"0123456789 +-./:Tt@,PYMWDHS") as char).collect(),
            3 => {
                // long runs
                let c = *r.pick(b"0123456789ay-+. :") as char;
                let mut s = gen::text(r, which);
                let i = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect::<Vec<_>>();
                let at = *r.pick(&i);
                s.insert_str(at, &c.to_string().repeat(*r.pick(&[3usize, 9, 10, 11, 30, 120, 130, 300])));
                s
            }
            _ => gen::text(r, which),
        };
        if r.chance(1, 4) {
            let mut b = s.into_bytes();
            gen::damage(r, &mut b);
            s = String::from_utf8_lossy(&b).into_owned();
        }
        serde_json::to_vec(&s).unwrap()
    } else {
        (0..r.us(24)).map(|_| if r.chance(1, 3) { *r.pick(&[0u8, 0xff, 0x7f, 0x80, 1]) } else { r.below(256) as u8 }).collect()
    };
    Step::Garbage { ty, f, bytes, src: if r.chance(1, 5) { hard(r) } else { benign(r) }, slice: r.chance(1, 2) }
}

fn small_int(r: &mut Rng, x: i64) -> Deliv {
    let mut v = vec![Deliv::I64(x), Deliv::I128(x as i128)];
    if let Ok(y) = i32::try_from(x) {
        v.extend([Deliv::I32(y), Deliv::I32(y)]);
    }
    if let Ok(y) = i16::try_from(x) {
        v.push(Deliv::I16(y));
    }
    if let Ok(y) = i8::try_from(x) {
        v.push(Deliv::I8(y));
    }
    if let Ok(y) = u64::try_from(x) {
        v.extend([Deliv::U64(y), Deliv::U128(y as u128)]);
    }
    if let Ok(y) = u32::try_from(x) {
        v.push(Deliv::U32(y));
    }
    if let Ok(y) = u16::try_from(x) {
        v.push(Deliv::U16(y));
    }
    if let Ok(y) = u8::try_from(x) {
        v.push(Deliv::U8(y));
    }
    r.pick(&v).clone()
}
fn strd(r: &mut Rng, s: String) -> Deliv {
    match r.below(3) {
        0 => Deliv::Str(s),
        1 => Deliv::Borrowed(s),
        _ => Deliv::Owned(s),
    }
}
fn odd(r: &mut Rng) -> Deliv {
    match r.below(12) {
        0 => Deliv::Bool(r.chance(1, 2)),
        1 => Deliv::Unit,
        2 => Deliv::None,
        3 => Deliv::F64((r.range(-1000, 1000) as f64 / 4.0).to_bits()),
        4 => strd(r, "12".into()),
        5 => Deliv::Seq(vec![]),
        6 => Deliv::Map(vec![]),
        7 => Deliv::I64(r.u64() as i64),
        8 => Deliv::U64(r.u64()),
        9 => Deliv::I128((r.u64() as i128) << r.below(64)),
        10 => Deliv::Bytes(vec![1, 2, 3]),
        _ => Deliv::Some(Box::new(Deliv::I64(5))),
    }
}
pub fn delivery(r: &mut Rng) -> Step {
    let ty = *r.pick(&[Ty::Date, Ty::Time, Ty::Ts, Ty::Iv, Ty::Iv, Ty::Iv, Ty::Iv]);
    let human = if ty == Ty::Iv { r.chance(1, 6) } else { r.chance(1, 2) };
    let d = if r.chance(1, 12) {
        odd(r)
    } else if human {
        let w = match ty {
            Ty::Date => 0,
            Ty::Time => 1,
            Ty::Ts => 2,
            _ => 3,
        };
        let s = gen::text(r, w);
        strd(r, s)
    } else {
        match ty {
            Ty::Date | Ty::Time | Ty::Ts => {
                let x = match ty {
                    Ty::Date => gen::date_val(r),
                    Ty::Time => gen::time_val(r),
                    _ => gen::ts_val(r),
                };
                let x = match r.below(8) {
                    0 => r.u64() as i64 >> r.below(40),
                    1 => *r.pick(&[gen::DATE_MIN - 1, gen::DATE_END, gen::DAY + 1, -1, gen::TS_MIN - 1, gen::TS_END, i64::MIN + 1, i64::MAX - 1]),
                    _ => x,
                };
                if r.chance(2, 3) {
                    if ty == Ty::Date {
                        Deliv::I32(x as i32)
                    } else {
                        Deliv::I64(x)
                    }
                } else {
                    small_int(r, x)
                }
            }
            _ => {
                let (a, b, c) = gen::iv_val(r);
                let part = |r: &mut Rng, x: i64, wide: bool| {
                    if r.chance(1, 14) {
                        odd(r)
                    } else if wide {
                        Deliv::I64(x)
                    } else if r.chance(2, 3) {
                        Deliv::I32(x as i32)
                    } else {
                        small_int(r, x)
                    }
                };
                if r.chance(1, 3) {
                    let mut v = vec![part(r, a, true), part(r, b, false), part(r, c, false)];
                    match r.below(8) {
                        0 => drop(v.pop()),
                        1 => v.truncate(r.us(3)),
                        2 => v.push(Deliv::I32(1)),
                        _ => {}
                    }
                    Deliv::Seq(v)
                } else {
                    let mut v = vec![
                        ("time", part(r, a, true)),
                        ("day", part(r, b, false)),
                        ("month", part(r, c, false)),
                    ];
                    if r.chance(3, 4) {
                        r.shuffle(&mut v);
                    }
                    match r.below(12) {
                        0 => drop(v.remove(r.us(3))),
                        10 | 11 => {
                            // nearly a field's name, in the place of it or beside it
                            let i = r.us(3);
                            const NEAR: [[&str; 10]; 3] = [
                                [" time", "time ", "time\t", "TIME", "Time", "\0time", "time\0", "t\u{ed}me", "times", "\u{feff}time"],
                                [" day", "day ", "day\n", "DAY", "Day", "\0day", "day\0", "d\u{e1}y", "days", "\u{a0}day"],
                                [" month", "month ", "month\r", "MONTH", "Month", "\0month", "month\0", "mon", "months", "month\u{200b}"],
                            ];
                            let k = NEAR[i][r.us(10)];
                            if r.chance(2, 3) {
                                v[i].0 = k;
                            } else {
                                let d = (k, v[i].1.clone());
                                let at = r.us(4);
                                v.insert(at, d);
                            }
                        }
                        1 | 2 => {
                            let i = r.us(3);
                            let mut d = v[i].clone();
                            if r.chance(2, 3) {
                                d.1 = part(r, b, i == 0);
                            }
                            let at = r.us(4);
                            v.insert(at, d);
                        }
                        3 => {
                            let k = *r.pick(&["days", "months", "times", "Time", "DAY", "", "tim", "daya", "year", "micros", "mont"]);
                            let d = part(r, b, false);
                            let at = r.us(4);
                            v.insert(at, (k, d));
                        }
                        4 => v.truncate(r.us(3)),
                        _ => {}
                    }
                    let v = v
                        .into_iter()
                        .map(|(k, d)| {
                            let key = if r.chance(1, 40) { odd(r) } else { strd(r, k.to_string()) };
                            (key, d)
                        })
                        .collect();
                    Deliv::Map(v)
                }
            }
        }
    };
    let fault = r.chance(1, 4);
    Step::Deliver { ty, d, human, at: r.below(9) as u32, act: if fault { Some(Act::ErrOnce(0)) } else { None } }
}

pub fn case(p: &Prop, seed: u64, idx: u64, run: u64, tier_long: bool, pool: &[Op], expect: &[(String, u64)]) -> Case {
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let mut phases = vec![];
    match p.id {
        "C01" => {
            let mut ph = Phase::default();
            let shape = r.below(10);
            let nh = match r.below(4) {
                0 => 2,
                1 => 3 + r.us(4),
                2 => 8 + r.us(20),
                _ => pool.len() / 2,
            };
            let h = hot(r, pool, nh);
            if run == 0 && idx % if tier_long { 4 } else { 8 } == 0 {
                // a long life: counters, sizes and eviction policies get to their limits
                let n = if tier_long { 300_000 } else { 70_000 };
                ph.clients.push(calls(r, &h, n));
            } else if shape < 6 {
                let n = if r.chance(1, 6) { 400 } else { 8 + r.us(60) };
                ph.clients.push(calls(r, &h, n));
            } else {
                // several threads, one after another or taking turns between calls
                for _ in 0..2 + r.us(4) {
                    let n = 2 + r.us(20);
                    ph.clients.push(calls(r, &h, n));
                }
                ph.threads = true;
                ph.first = r.us(ph.clients.len());
            }
            phases.push(ph);
        }
        "C02" | "C03" => {
            let mut ph = Phase { threads: true, ..Phase::default() };
            let nh = *r.pick(&[1usize, 2, 2, 3, 4, 8]);
            let h = hot(r, pool, nh);
            let nt = 2 + r.us(4);
            for _ in 0..nt {
                let most = if r.chance(1, 4) { 30 } else { 8 };
                let n = 1 + r.us(most);
                ph.clients.push(calls(r, &h, n));
            }
            ph.plan = rand_plan(r);
            ph.first = r.us(nt);
            if p.id == "C03" {
                for _ in 0..1 + r.us((nt - 1).min(2)) {
                    let t = r.us(nt);
                    if ph.freeze.iter().any(|f| f.t == t) {
                        continue;
                    }
                    let steps: u64 = ph.clients[t]
                        .iter()
                        .map(|s| match s {
                            Step::Call(o) => expect[*o as usize].1,
                            _ => 0,
                        })
                        .sum();
                    let span = if r.chance(1, 2) { steps } else { steps / ph.clients[t].len() as u64 };
                    ph.freeze.push(Freeze { t, at: 1 + r.below(span.max(1)) });
                }
            }
            phases.push(ph);
        }
        "C04" | "C05" => {
            let mut ph = Phase::default();
            let k = 2 + r.us(12);
            let h = hot(r, pool, k);
            let n = 2 + r.us(20);
            ph.clients.push(calls(r, &h, n));
            if r.chance(1, 2) {
                ph.place = r.u64() | 1;
            }
            if p.id == "C04" {
                match r.below(4) {
                    0 => ph.heap = pattern(r),
                    1 => ph.stack = pattern(r),
                    _ => {
                        ph.heap = pattern(r);
                        ph.stack = pattern(r);
                    }
                }
            } else {
                ph.ambient = Some(r.u64());
                if r.chance(1, 3) {
                    ph.threads = true;
                    let n = 1 + r.us(10);
                    ph.clients.push(calls(r, &h, n));
                }
            }
            phases.push(ph);
        }
        "C06" => {
            let n = 1 + r.us(3);
            for i in 0..n {
                phases.push(store_phase(r, i + 1 == n));
            }
        }
        "C12" => {
            let n = 2 + r.us(3);
            let first_old = r.chance(1, 2);
            for i in 0..n {
                let mut ph = store_phase(r, i + 1 == n);
                ph.old = if r.chance(1, 5) { r.chance(1, 2) } else { (i % 2 == 0) == first_old };
                phases.push(ph);
            }
        }
        "C07" => {
            let mut ph = Phase::default();
            let mut v = vec![];
            for _ in 0..6 + r.us(20) {
                v.push(if r.chance(1, 2) {
                    Step::Damage {
                        v: vspec(r, false),
                        f: *r.pick(FMTS),
                        d: (0..1 + r.below(3)).map(|_| dmg(r)).collect(),
                        src: if r.chance(1, 4) { hard(r) } else { benign(r) },
                        slice: r.chance(1, 2),
                    }
                } else {
                    garbage(r)
                });
            }
            ph.clients.push(v);
            phases.push(ph);
        }
        "C08" => {
            let mut ph = Phase::default();
            let mut v = vec![];
            for _ in 0..4 + r.us(16) {
                v.push(if r.chance(1, 2) {
                    Step::Sink { v: vspec(r, false), f: *r.pick(FMTS), sink: hard(r) }
                } else {
                    Step::Ser { v: vspec(r, true), human: r.chance(1, 4), at: r.below(8) as u32, act: Act::ErrOnce(0) }
                });
            }
            ph.clients.push(v);
            phases.push(ph);
        }
        "C09" => {
            let mut ph = Phase::default();
            let n = 6 + r.us(20);
            ph.clients.push((0..n).map(|_| delivery(r)).collect());
            phases.push(ph);
        }
        "C10" => {
            let mut ph = Phase::default();
            let k = 2 + r.us(6);
            let h = hot(r, pool, k);
            let nc = if r.chance(1, 4) { 2 } else { 1 };
            for _ in 0..nc {
                let mut v = vec![];
                for _ in 0..4 + r.us(14) {
                    let act = if r.chance(1, 3) { Act::Panic } else { Act::Reenter((0..1 + r.below(3)).map(|_| *r.pick(&h)).collect()) };
                    v.push(match r.below(8) {
                        0 | 1 | 2 => Step::Call(*r.pick(&h)),
                        3 | 4 => {
                            let mut s = benign(r);
                            for _ in 0..1 + r.below(3) {
                                let k = r.below(8) as u32;
                                s.acts.insert(k, act.clone());
                            }
                            Step::Sink { v: vspec(r, false), f: *r.pick(FMTS), sink: s }
                        }
                        5 => {
                            let mut s = benign(r);
                            s.acts.insert(r.below(12) as u32, act);
                            Step::Append { v: vspec(r, false), f: *r.pick(FMTS), sink: s }
                        }
                        6 => Step::Ser { v: vspec(r, true), human: r.chance(1, 3), at: r.below(7) as u32, act },
                        _ => match delivery(r) {
                            Step::Deliver { ty, d, human, at, .. } => Step::Deliver { ty, d, human, at, act: Some(act) },
                            s => s,
                        },
                    });
                }
                v.extend(calls(r, &h, 3));
                if r.chance(1, 3) {
                    ph.threads = true;
                    for _ in 0..1 + r.below(4) {
                        let at = r.us(v.len() + 1);
                        v.insert(at, Step::AtExit { o: *r.pick(&h), late: r.chance(1, 3) });
                    }
                }
                ph.clients.push(v);
            }
            if nc > 1 {
                ph.threads = true;
                ph.plan = rand_plan(r);
            }
            phases.push(ph);
        }
        "C11" => {
            let mut ph = Phase::default();
            let n = if tier_long { 40_000 } else { 12_000 };
            if r.chance(1, 3) {
                ph.threads = true;
                for _ in 0..2 {
                    ph.clients.push(vec![Step::Churn { seed: r.u64(), n: n / 2, kinds: if r.chance(1, 2) { 9 } else { r.below(9) as u8 } }]);
                }
            } else if r.chance(1, 4) {
                ph.clients.push(vec![Step::Churn { seed: r.u64(), n, kinds: 10 }]);
            } else {
                ph.clients.push(vec![Step::Churn { seed: r.u64(), n, kinds: if r.chance(1, 2) { 9 } else { r.below(9) as u8 } }]);
            }
            phases.push(ph);
        }
        "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C19" | "C20" => {
            r.2 = gen::theme(r);
            let mut ph = Phase::default();
            // one machine, or several at once in threads of their own
            let n = if r.chance(1, 10) { 2 + r.us(2) } else { 1 };
            for _ in 0..n {
                ph.clients.push(vec![if p.id == "C14" && r.chance(4, 5) {
                    Step::Index(replgen::index(r))
                } else {
                    Step::Repl(replgen::spec(r, p.id))
                }]);
            }
            if n > 1 {
                ph.threads = true;
                ph.plan = rand_plan(r);
                ph.first = r.us(n);
            }
            if r.chance(1, 4) {
                ph.heap = pattern(r);
                ph.stack = pattern(r);
            }
            if r.chance(1, 4) {
                ph.ambient = Some(r.u64());
            }
            phases.push(ph);
        }
        _ => unreachable!(),
    }
    Case { prop: p.id.to_string(), seed, pool: pool.to_vec(), phases }
}
