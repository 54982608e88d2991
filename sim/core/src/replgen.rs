//! How the replicated machines of C13-C20 are drawn: commands, operands, texts and faults.
use crate::gen::{self, DATE_END, DATE_MIN, DAY, TS_END, TS_MIN};
use crate::model::{self, DINF, DNINF, TINF, TNINF};
use crate::oldrel::civil;
use crate::repl::*;
use crate::rng::Rng;
use adapter::iofmt::{Ty, FMTS};
use adapter::K;

const PUTS: [K; 4] = [K::DateUnbin, K::TimeUnbin, K::TsUnbin, K::IvUnbin];

fn kinds(id: &str) -> &'static [K] {
    match id {
        "C13" => &[K::DateUnbin, K::TimeUnbin, K::TsUnbin, K::IvUnbin, K::DateFmt, K::TimeFmt, K::TsFmt, K::IvFmt],
        "C14" => &[K::DateCmp, K::TimeCmp, K::TsCmp, K::IvCmp, K::IvCmp, K::IvToI128],
        "C15" => &[
            K::DateYmd, K::DateYmd, K::DateAddDays, K::DateSubDays, K::DateSubDate, K::DateAddTime, K::DateFromTs, K::DateFinite,
            K::DateCmpTs, K::TimeHms, K::TimeFromTs, K::TimeFromIv, K::IvFromTime, K::TsFromDate, K::TsYmdHms,
            K::TsFinite, K::IvYmwdHms, K::DateFmt, K::TsFmt, K::IvToI128, K::DatePart, K::TsPart,
        ],
        "C16" => &[
            K::DateAddDays, K::DateSubDays, K::DateSubDate, K::DateAddIv, K::DateSubIv, K::DateAddTime, K::TimeAddIv,
            K::TimeSubIv, K::TimeSubTime, K::TsAddIv, K::TsAddIv, K::TsSubIv, K::TsSubIv, K::TsAddTime, K::TsSubTime,
            K::TsSubDate, K::TsSubTs, K::TsAge, K::TsAge, K::IvAdd, K::IvSub, K::IvPlus, K::IvNeg, K::IvJHours, K::IvJDays,
            K::IvJIv, K::IvMul, K::IvMul, K::IvDiv, K::IvDiv,
        ],
        "C17" => &[
            K::DatePart, K::DateTrunc, K::TimePart, K::TimeTrunc, K::TsPart, K::TsTrunc, K::TsPart, K::TsTrunc, K::IvPart,
            K::IvTrunc, K::TimeParse, K::TsParse, K::IvParse,
        ],
        "C18" => &[
            K::DateYmd, K::DateAddDays, K::DateSubDays, K::DateSubDate, K::DateAddIv, K::DateSubIv, K::DateAddTime,
            K::DateFromTs, K::DateTrunc, K::DatePart, K::TimeHms, K::TimeAddIv, K::TimeSubIv, K::TimeSubTime, K::TimeFromTs,
            K::TimeFromIv, K::TsYmdHms, K::TsAddIv, K::TsAddTime, K::TsSubIv, K::TsSubDate, K::TsSubTime, K::TsSubTs,
            K::TsAge, K::TsFromDate, K::TsTrunc, K::TsPart, K::IvYmwdHms, K::IvAdd, K::IvSub, K::IvNeg, K::IvJHours,
            K::IvJDays, K::IvJIv, K::IvMul, K::IvDiv, K::IvTrunc, K::IvPart, K::IvToI128, K::IvFmt, K::TsFmt, K::DateFmt,
            K::TimeParse, K::TsParse, K::IvParse, K::IvCmp,
        ],
        _ => &[K::DateParse, K::TimeParse, K::TsParse, K::IvParse],
    }
}

/// style and order under which the text of a date says which number is what
fn text_wire(r: &mut Rng) -> (Wire, bool) {
    let (style, order) = match r.below(9) {
        0 | 1 => (1, r.below(3) as u8),
        2 => (4, r.below(3) as u8),
        3 => (2, 1),
        4 => (2, 2),
        5 => (3, 1),
        6 => (0, 1),
        7 => (0, 2),
        _ => (0, 0),
    };
    (Wire::Text { style, order, iv: r.below(4) as u8 }, (style, order) != (0, 0))
}
fn wire(r: &mut Rng, id: &str) -> (Wire, bool) {
    if id == "C13" {
        text_wire(r)
    } else {
        (Wire::Fmt(*r.pick(FMTS)), true)
    }
}

fn factor(r: &mut Rng) -> f64 {
    let g = if r.chance(1, 3) { -1.0 } else { 1.0 };
    g * match r.below(8) {
        0 => *r.pick(&[0.5, 1.5, 0.25, 1.0 / 3.0, 2.0 / 3.0, 0.1, 0.7, 1e-3, 1e-6]),
        1 => *r.pick(&[0.0, 1.0, 2.0, 12.0, 30.0, 86400.0, 1e9, 1e300, 1e-300, f64::INFINITY, f64::NAN]),
        2 => r.range(0, 1000) as f64,
        3 => r.range(0, 1_000_000) as f64 / 1e3,
        4 => r.range(1, 60) as f64 / r.range(1, 60) as f64,
        _ => r.range(0, 4000) as f64 / 100.0,
    }
}
const XI: &[i64] = &[i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 0, 1, -1, 86_400_000_000, -86_400_000_000, 2_147_483_647 * 3_600_000_000, -2_147_483_648 * 3_600_000_000];
const X32: &[i64] = &[i32::MIN as i64, i32::MIN as i64 + 1, i32::MAX as i64, i32::MAX as i64 - 1, 0, 1, -1, 12, 30, -30, 29, 178_956_970, -178_956_970];
fn extreme(r: &mut Rng, s: Slot) -> Vec<i64> {
    match s {
        Slot::D => vec![match r.below(4) {
            0 => *r.pick(&[DINF, DNINF]),
            1 => DATE_MIN + r.below(400) as i64,
            2 => DATE_END - 1 - r.below(400) as i64,
            _ => (TS_END / DAY + r.range(-40, 40)).clamp(DATE_MIN, DATE_END - 1),
        }],
        Slot::T => vec![*r.pick(&[0, 1, DAY - 1, DAY])],
        Slot::S => vec![match r.below(4) {
            0 => *r.pick(&[TINF, TNINF]),
            1 => TS_MIN + r.range(0, 3) * r.range(0, DAY),
            2 => TS_END - 1 - r.range(0, 3) * r.range(0, DAY),
            _ => *r.pick(&[TS_MIN, TS_END - 1]),
        }],
        Slot::I => {
            let (a, b, c) = gen::iv_val(r);
            let p = |r: &mut Rng, x: i64, v: &[i64]| if r.chance(1, 2) { *r.pick(v) } else { x };
            vec![p(r, a, XI), p(r, b, X32), p(r, c, X32)]
        }
        Slot::N(_) => vec![],
    }
}

fn cmd(r: &mut Rng, id: &str, k: K, dates: bool) -> Cmd {
    if gen::has_text(k) {
        return match id {
            "C19" => {
                let mut c = spelled(r, k);
                if r.chance(1, 8) {
                    c.s = spread(r, &c.s);
                }
                c
            }
            "C20" if r.chance(1, 5) => spelled(r, k),
            "C20" => impossible(r, k),
            _ => precise(r, k, id == "C18"),
        };
    }
    let mut o = gen::op(r, k);
    if matches!(k, K::IvMul | K::IvDiv) {
        o.n[3] = factor(r).to_bits() as i64;
        if k == K::IvMul && r.chance(1, 2) {
            // keep clear of the extremes, where most answers are errors
            for x in &mut o.n[..3] {
                *x %= 1_000_000_007;
            }
        }
    }
    if matches!(k, K::DatePart | K::DateTrunc | K::TsPart | K::TsTrunc | K::IvPart | K::IvTrunc | K::TimePart | K::TimeTrunc) {
        o.e[0] = r.chance(1, 16) as u8;
        if o.e[0] == 1 && r.chance(3, 4) {
            o.e[1] = model::u::EPOCH;
        }
    }
    let mut a = vec![];
    let mut at = 0;
    for s in sig(k) {
        let w = match s {
            Slot::N(n) => *n as usize,
            Slot::I => 3,
            _ => 1,
        };
        let mut lit = o.n[at..at + w].to_vec();
        at += w;
        if let Slot::N(n) = s {
            if id == "C18" && r.chance(1, 2) {
                let fl = matches!(k, K::IvMul | K::IvDiv | K::TimeHms | K::TsYmdHms | K::IvYmwdHms);
                for (j, x) in lit.iter_mut().enumerate() {
                    if fl && j + 1 == *n as usize {
                        if r.chance(1, 3) {
                            let f = *r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 1e10, -1e10, 9.3e12, -9.3e12, f64::NAN, f64::INFINITY, 1e-320, 4.3e9, 0.0]);
                            *x = f.to_bits() as i64;
                        }
                    } else if r.chance(1, 3) {
                        *x = *r.pick(X32);
                    }
                }
            }
            a.push(Arg::L(lit));
            continue;
        }
        a.push(if r.chance(1, 3) && (dates || *s != Slot::D) {
            Arg::R(r.below(4) as u8)
        } else if *s == Slot::S && r.chance(1, 6) {
            Arg::Now
        } else if id == "C18" && r.chance(2, 3) {
            Arg::L(extreme(r, *s))
        } else if id == "C14" && r.chance(1, 3) && *s == Slot::I {
            Arg::L(same_span(r))
        } else {
            Arg::L(lit)
        });
    }
    Cmd { k, s: String::new(), e: o.e, a, dst: r.chance(2, 3).then(|| r.below(4) as u8), want: None }
}
/// an interval that comes to the same measure as many others
fn same_span(r: &mut Rng) -> Vec<i64> {
    let total = r.range(0, 3);
    let (d, m) = (r.range(-40, 40), r.range(-2, 2));
    let t = (total * 30 - d - m * 30) * DAY;
    vec![t, d, m]
}

fn events(r: &mut Rng, n: usize, nodes: u8) -> Vec<Ev> {
    // a calm network, or one with some kinds of trouble
    let calm = r.chance(1, 8);
    let on: Vec<bool> = (0..9).map(|_| !calm && r.chance(1, 2)).collect();
    let mut v = vec![];
    for _ in 0..3 * n + r.us(12) {
        let t = r.below(nodes as u64) as u8;
        let m = r.below(1 << 20) as u32;
        v.push(match r.below(24) {
            0..=6 => Ev::Next,
            7..=14 => Ev::Deliver(if r.chance(1, 2) { 0 } else { m }),
            15 if on[0] => Ev::Drop(m),
            16 if on[1] => Ev::Dup(m),
            17 if on[2] => Ev::Crash(t, r.below(200) as u32),
            18 if on[2] => Ev::Restart(t),
            19 if on[3] => Ev::Snap(t),
            20 if on[4] => Ev::Sync(t),
            21 if on[5] => {
                if r.chance(1, 3) {
                    Ev::Cut(t)
                } else {
                    Ev::Heal(t)
                }
            }
            22 if on[6] => Ev::Resend(t),
            23 if on[7] => Ev::Jump(match r.below(4) {
                0 => r.range(-400, 400) * DAY,
                1 => r.range(-40_000, 40_000) * DAY,
                2 => r.range(-100, 100) * 3_600_000_000,
                _ => r.range(-2_000_000, 2_000_000),
            }),
            _ => Ev::Deliver(m),
        });
    }
    v
}

pub fn spec(r: &mut Rng, id: &str) -> Spec {
    let (wire, dates) = wire(r, id);
    // a run concentrates on some of the calls
    let mut ks = kinds(id).to_vec();
    if r.chance(1, 2) {
        r.shuffle(&mut ks);
        ks.truncate(2 + r.us(4));
    }
    let most = if r.chance(1, 4) { 40 } else { 16 };
    let n = 4 + r.us(most);
    let mut cmds = vec![];
    while cmds.len() < n {
        let k = if r.chance(1, 8) { *r.pick(&PUTS) } else { *r.pick(&ks) };
        if !dates && sig(k).contains(&Slot::D) {
            ks.push(K::TsUnbin);
            continue;
        }
        cmds.push(cmd(r, id, k, dates));
    }
    let nodes = *r.pick(&[1u8, 2, 2, 3, 3, 4]);
    let evs = events(r, n, nodes);
    Spec { nodes, wire, now: gen::ts_val(r).clamp(TS_MIN, TS_END - 1), cmds, evs }
}

pub fn index(r: &mut Rng) -> IxSpec {
    let ty = *r.pick(&[Ty::Date, Ty::Time, Ty::Ts, Ty::Iv, Ty::Iv, Ty::Iv, Ty::Iv]);
    let mut items: Vec<Vec<i64>> = vec![];
    let most = if r.chance(1, 5) { 30 } else { 9 };
    for _ in 0..2 + r.us(most) {
        let base = if items.is_empty() || r.chance(1, 2) {
            match ty {
                Ty::Date => vec![if r.chance(1, 6) { extreme(r, Slot::D)[0] } else { gen::date_val(r) }],
                Ty::Time => vec![gen::time_val(r)],
                Ty::Ts => vec![if r.chance(1, 6) { extreme(r, Slot::S)[0] } else { gen::ts_val(r) }],
                _ => {
                    if r.chance(1, 4) {
                        extreme(r, Slot::I)
                    } else if r.chance(1, 3) {
                        same_span(r)
                    } else {
                        let (a, b, c) = gen::iv_val(r);
                        vec![a, b, c]
                    }
                }
            }
        } else {
            // a neighbour of one that is there, or the same span written otherwise
            let mut x = r.pick(&items).clone();
            let by = r.range(-3, 3);
            match ty {
                Ty::Iv => match r.below(5) {
                    0 => x[0] = x[0].saturating_add(*r.pick(&[1, -1, 1000, DAY])),
                    1 | 2 => {
                        if let (Some(t), d) = (x[0].checked_add(by * DAY), x[1] - by) {
                            if i32::try_from(d).is_ok() {
                                x[0] = t;
                                x[1] = d;
                            }
                        }
                    }
                    3 => {
                        let (d, m) = (x[1] + 30 * by, x[2] - by);
                        if i32::try_from(d).is_ok() && i32::try_from(m).is_ok() {
                            x[1] = d;
                            x[2] = m;
                        }
                    }
                    _ => {
                        let far = r.range(-7000, 7000);
                        let (t, m) = (x[0].checked_add(30 * far * DAY), x[2] - far);
                        if let (Some(t), true) = (t, i32::try_from(m).is_ok()) {
                            x[0] = t;
                            x[2] = m;
                        }
                    }
                },
                Ty::Time => x[0] = (x[0] + by).clamp(0, DAY),
                Ty::Date => x[0] = if model::dinf(x[0]) { x[0] } else { (x[0] + by).clamp(DATE_MIN, DATE_END - 1) },
                _ => x[0] = if model::tinf(x[0]) { x[0] } else { x[0].saturating_add(by).clamp(TS_MIN, TS_END - 1) },
            }
            x
        };
        items.push(base);
    }
    let n = items.len() as u64;
    let nodes = 1 + r.below(3) as u8;
    let mut ops = vec![];
    for _ in 0..items.len() * 3 + r.us(10) {
        let m = r.below(1 << 20) as u32;
        let t = r.below(nodes as u64) as u8;
        ops.push(match r.below(16) {
            0..=4 => Ix::Put(r.below(n) as u32, r.chance(5, 6)),
            5..=8 => Ix::Deliver(m),
            9 => Ix::Drop(m),
            10 => Ix::Dup(m),
            11 | 12 => Ix::Range(t, r.below(n) as u32, r.below(n) as u32),
            13 => Ix::Rebuild(t, r.chance(1, 2)),
            _ => Ix::Pairs(t),
        });
    }
    IxSpec { nodes, ty, items, ops }
}

// ---- texts with a precision or a restriction of fields (C17, C18) -----------------------------
fn text_cmd(k: K, s: String, typmod: i64, e: u8, dst: Option<u8>, want: Vec<i64>) -> Cmd {
    Cmd { k, s, e: vec![e], a: vec![Arg::L(vec![typmod])], dst, want: Some(want) }
}
/// None: refused
pub fn iv_adjust(v: (i64, i64, i64), typmod: i64) -> Option<(i64, i64, i64)> {
    if typmod < 0 {
        return Some(v);
    }
    let (range, prec) = ((typmod >> 16) & 0x7fff, typmod & 0xffff);
    const MON: i64 = 1 << 1;
    const YEAR: i64 = 1 << 2;
    const D: i64 = 1 << 3;
    const H: i64 = 1 << 10;
    const M: i64 = 1 << 11;
    const S: i64 = 1 << 12;
    let (mut t, mut d, mut m) = v;
    match range {
        0x7fff => {}
        YEAR => {
            m -= m % 12;
            d = 0;
            t = 0;
        }
        x if x == MON || x == YEAR | MON => {
            d = 0;
            t = 0;
        }
        D => t = 0,
        x if x == H || x == D | H => t -= t % 3_600_000_000,
        x if x == M || x == D | H | M || x == H | M => t -= t % 60_000_000,
        x if x == S || x == D | H | M | S || x == H | M | S || x == M | S => {}
        _ => return None,
    }
    if prec != 0xffff {
        if prec > 6 {
            return None;
        }
        t = i64::try_from(model::round_us(t, prec)).ok()?;
    }
    Some((t, d, m))
}
const RANGES: &[i64] = &[
    1 << 2, 1 << 1, 1 << 3, 1 << 10, 1 << 11, 1 << 12, (1 << 2) | (1 << 1), (1 << 3) | (1 << 10),
    (1 << 3) | (1 << 10) | (1 << 11), (1 << 3) | (1 << 10) | (1 << 11) | (1 << 12), (1 << 10) | (1 << 11),
    (1 << 10) | (1 << 11) | (1 << 12), (1 << 11) | (1 << 12), 0x7fff,
];
fn precise(r: &mut Rng, k: K, wild: bool) -> Cmd {
    let dst = r.chance(2, 3).then(|| r.below(4) as u8);
    let edge = |r: &mut Rng, t: i64| {
        // close to the point where it is rounded the other way
        let p = 10i64.pow(r.below(7) as u32);
        match r.below(4) {
            0 => t - t % p + p / 2 + r.range(-1, 1),
            1 => t - t % 1_000_000 + 999_999 - r.below(2) as i64 * r.range(0, 600_000),
            _ => t,
        }
    };
    match k {
        K::TimeParse => {
            let x = gen::time_val(r);
            let t = edge(r, x).clamp(0, DAY);
            let p = if r.chance(1, 8) { -1 } else { r.range(0, 6) };
            let w = if p < 0 { t } else { model::round_us(t, p) as i64 };
            text_cmd(k, model::clock(t), p, r.below(3) as u8, dst, vec![w])
        }
        K::IvParse => {
            let v = if wild {
                let x = extreme(r, Slot::I);
                (x[0], x[1], x[2])
            } else {
                gen::iv_val(r)
            };
            let t = if v.0.unsigned_abs() < i64::MAX as u64 - 2_000_000 { edge(r, v.0.abs()) * v.0.signum() } else { v.0 };
            let v = (t, v.1, v.2);
            let rg = *r.pick(RANGES);
            let p = if r.chance(1, 3) { 0xffff } else { r.range(0, 6) };
            let typmod = if r.chance(1, 12) { -1 } else { (rg << 16) | p };
            let st = *r.pick(&[0u8, 3]);
            match (model::iv_text(v, st), typmod) {
                (Some(s), tm) => {
                    let w = iv_adjust(v, tm).map(|w| vec![w.0, w.1, w.2]).unwrap_or_default();
                    text_cmd(k, s, tm, st, dst, w)
                }
                _ => precise(r, K::TimeParse, false),
            }
        }
        _ => {
            let x = if wild { extreme(r, Slot::S)[0] } else { gen::ts_val(r) };
            let t = if model::tinf(x) { x } else { edge(r, x).clamp(TS_MIN, TS_END - 1) };
            let p = if r.chance(1, 8) { -1 } else { r.range(0, 6) };
            let w = if p < 0 || model::tinf(t) { t as i128 } else { model::round_us(t, p) };
            let ok = model::tinf(t) || (TS_MIN as i128..TS_END as i128).contains(&w);
            let s = model::ts_texts(t, 1, 0).remove(0);
            text_cmd(K::TsParse, s, p, r.below(3) as u8, dst, if ok { vec![w as i64] } else { vec![] })
        }
    }
}

// ---- the spellings PostgreSQL documents (C19) -------------------------------------------------
fn cased(r: &mut Rng, s: &str) -> String {
    match r.below(5) {
        0 => s.to_uppercase(),
        1 | 2 => {
            let mut c = s.chars();
            c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
        }
        _ => s.to_string(),
    }
}
fn month_name(r: &mut Rng, m: i64) -> String {
    let full = gen::MONTHS[m as usize - 1];
    let s = match r.below(4) {
        0 | 1 => full.to_string(),
        2 if m == 9 => "sept".to_string(),
        _ => full[..3].to_string(),
    };
    cased(r, &s)
}
const FULL_WD: [&str; 7] = ["sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"];
/// text of the date, and the order it must be read in (3: any)
fn date_spelling(r: &mut Rng, dn: i64) -> (String, u8) {
    let (y, m, d) = civil(dn);
    let bc = y <= 0;
    let yy = if bc { 1 - y } else { y };
    let mn = month_name(r, m);
    let y4 = format!("{yy:04}");
    let recent = !bc && (1970..=2069).contains(&y);
    let short = |n: i64| format!("{:02}", n % 100);
    let four = !bc && yy >= 1000 && yy <= 9999;
    let o = r.below(3) as u8;
    // the name of the day goes with dates of several words only
    let mut words;
    let (s, order) = loop {
        let sep = *r.pick(&["-", "/", ".", "-"]);
        let how = r.below(18);
        words = (3..=5).contains(&how);
        // a number of six digits standing alone is not a year
        if words && yy > 99_999 {
            continue;
        }
        break match how {
            0 | 1 | 2 => (format!("{y4}-{m:02}-{d:02}"), 3),
            3 => (format!("{mn} {d}, {y4}"), 3),
            4 => (format!("{mn} {d} {y4}"), 3),
            5 => (format!("{d} {mn} {y4}"), 3),
            6 => (format!("{y4}-{}-{d:02}", &mn), 3),
            7 => (format!("{d:02}-{mn}-{y4}"), 3),
            8 => (format!("{mn}-{d:02}-{y4}"), 3),
            9 => (format!("{m:02}{sep}{d:02}{sep}{y4}"), 2),
            10 => (format!("{d:02}{sep}{m:02}{sep}{y4}"), 1),
            11 if yy > 999 => (format!("{m}/{d}/{y4}"), 2),
            12 if yy > 999 => (format!("{d}/{m}/{y4}"), 1),
            13 if recent => match o {
                0 => (format!("{}{sep}{m:02}{sep}{d:02}", short(y)), 0),
                1 => (format!("{d:02}{sep}{m:02}{sep}{}", short(y)), 1),
                _ => (format!("{m:02}{sep}{d:02}{sep}{}", short(y)), 2),
            },
            14 if four => (format!("{y4}{m:02}{d:02}"), 3),
            15 if recent => (format!("{}{m:02}{d:02}", short(y)), 3),
            16 if (1000..=9999).contains(&yy) => (format!("{y4}.{:03}", dn - model::day(y, 1, 1) + 1), 3),
            17 if dn > -2_400_000 && !bc => {
                let w = *r.pick(&["J", "J", "JD", "Julian ", "JD ", "J "]);
                return (format!("{}{}", cased(r, w), dn + 2_451_545), o);
            }
            _ => continue,
        };
    };
    let mut s = s;
    if bc {
        s += *r.pick(&[" BC", " bc"]);
    } else if r.chance(1, 12) {
        s += *r.pick(&[" AD", " ad"]);
    }
    if words && r.chance(1, 4) {
        let w = FULL_WD[(dn + 6).rem_euclid(7) as usize];
        // Tues, Weds, Thur and Thurs are abbreviations too
        let n = match r.below(4) {
            0 | 1 => w.len(),
            2 => match w.as_bytes() {
                [b't', b'u', ..] | [b'w', ..] => 4,
                [b't', b'h', ..] => 4 + r.us(2),
                _ => 3,
            },
            _ => 3,
        };
        let w = if w.starts_with('w') && n == 4 { "weds" } else { &w[..n] };
        let c = if r.chance(1, 4) { "," } else { "" };
        s = format!("{}{c} {s}", cased(r, w));
    }
    if words && r.chance(1, 16) {
        s = format!("{} {s}", cased(r, "on"));
    }
    (s, if order == 3 { o } else { order })
}
/// text and value of a time of day near t
fn time_spelling(r: &mut Rng, t: i64, plain: bool) -> (String, i64) {
    let t = t.clamp(0, DAY - 1);
    let sec = t - t % 1_000_000;
    let min = t - t % 60_000_000;
    let h = t / 3_600_000_000;
    let m = t / 60_000_000 % 60;
    let s = t / 1_000_000 % 60;
    let h12 = if h % 12 == 0 { 12 } else { h % 12 };
    let ap = if h < 12 { *r.pick(&["AM", "am"]) } else { *r.pick(&["PM", "pm"]) };
    let top = if plain { 5 } else { 13 };
    match r.below(top) {
        0..=2 => (model::clock(t), t),
        3 => (model::clock(sec), sec),
        4 => (format!("{h:02}:{m:02}"), min),
        5 => (format!("{h:02}{m:02}{s:02}"), sec),
        6 => (format!("{h12:02}:{m:02} {ap}"), min),
        7 => (format!("{h12}:{m:02}:{s:02}{} {ap}", model::frac(t % 1_000_000)), t),
        8 => (format!("{h12:02}:{m:02}{ap}"), min),
        9 if t % 1_000_000 != 0 => (format!("{h:02}{m:02}{s:02}{}", model::frac(t % 1_000_000)), t),
        10 => (format!("T{h:02}{m:02}{s:02}"), sec),
        11 => (format!("{}{}", *r.pick(&["T", "t", "T "]), model::clock(t)), t),
        _ => (format!("{h:02}:{m:02}:{s:02}"), sec),
    }
}
/// a text, its value, and its years, months, days, hours, minutes and microseconds where a leading sign
/// can matter
type Spelling = (String, Vec<i64>, Option<[i64; 6]>);
fn iv_spelling(r: &mut Rng) -> Spelling {
    let sg = |r: &mut Rng| if r.chance(1, 4) { -1i64 } else { 1 };
    let y = r.range(0, 60) * sg(r);
    let mo = r.range(0, 11) * sg(r);
    let d = r.range(0, 45) * sg(r);
    let (h, mi, s, us) = (r.range(0, 23), r.range(0, 59), r.range(0, 59), if r.chance(1, 2) { r.range(0, 999_999) } else { 0 });
    let tod = ((h * 60 + mi) * 60 + s) * 1_000_000 + us;
    let tg = sg(r);
    let hms = model::clock(tod);
    match r.below(9) {
        0 => {
            let g = if y < 0 { -1 } else { 1 };
            let s = format!("{}{}-{}", if g < 0 { "-" } else { "" }, y.abs(), mo.abs());
            (s, vec![0, 0, g * (y.abs() * 12 + mo.abs())], None)
        }
        1 => (format!("{d} {hms}"), vec![tod, d, 0], Some([0, 0, d, h, mi, s * 1_000_000 + us])),
        2 => {
            let g = if y < 0 || mo < 0 { -1 } else { 1 };
            let s = format!(
                "{}{}-{} {}{} {}{hms}",
                if g < 0 { "-" } else { "+" },
                y.abs(),
                mo.abs(),
                if d < 0 { "-" } else { "+" },
                d.abs(),
                if tg < 0 { "-" } else { "+" }
            );
            (s, vec![tg * tod, d, g * (y.abs() * 12 + mo.abs())], None)
        }
        3 => {
            let mut t = String::from("P");
            let w = if r.chance(1, 4) { r.range(0, 20) * sg(r) } else { 0 };
            for (n, c) in [(y, 'Y'), (mo, 'M'), (w, 'W'), (d, 'D')] {
                if n != 0 {
                    t += &format!("{n}{c}");
                }
            }
            let h = h * tg;
            let mi = mi * sg(r);
            let sn = sg(r);
            if h != 0 || mi != 0 || s != 0 || us != 0 || t == "P" {
                t.push('T');
                if h != 0 {
                    t += &format!("{h}H");
                }
                if mi != 0 {
                    t += &format!("{mi}M");
                }
                if s != 0 || us != 0 || t.ends_with('T') {
                    t += &format!("{}{s}{}S", if sn < 0 { "-" } else { "" }, model::frac(us));
                }
            }
            (t, vec![(h * 60 + mi) * 60_000_000 + sn * (s * 1_000_000 + us), d + 7 * w, y * 12 + mo], None)
        }
        4 => {
            let (y, mo, d) = (y.abs(), mo.abs(), d.abs().min(31));
            let whole = tod - us;
            let (s, v) = match r.below(5) {
                0 => (format!("P{y:04}{mo:02}{d:02}T{h:02}{mi:02}{s:02}"), vec![whole, d, y * 12 + mo]),
                1 => (format!("P{y:04}-{mo:02}-{d:02}"), vec![0, d, y * 12 + mo]),
                2 => (format!("PT{}", model::clock(tod)), vec![tod, 0, 0]),
                _ => (format!("P{y:04}-{mo:02}-{d:02}T{}", model::clock(tod)), vec![tod, d, y * 12 + mo]),
            };
            (s, v, None)
        }
        5 => {
            // halves and quarters carry over into smaller units
            let n = r.range(0, 20);
            let f = *r.pick(&[5i64, 25, 75]);
            let q = if f == 5 { 50 } else { f };
            let (u, v): (&[&str], Vec<i64>) = match r.below(7) {
                0 => (&["hours", "hour", "h", "hr", "hrs"], vec![(n * 100 + q) * 36_000_000, 0, 0]),
                1 => (&["minutes", "min", "mins", "m"], vec![(n * 100 + q) * 600_000, 0, 0]),
                2 => (&["seconds", "sec", "secs", "s"], vec![(n * 100 + q) * 10_000, 0, 0]),
                3 => (&["days", "day", "d"], vec![q * DAY / 100, n, 0]),
                4 => (&["weeks", "week", "w"], vec![7 * q % 100 * DAY / 100, n * 7 + 7 * q / 100, 0]),
                5 => (&["months", "mon", "mons"], vec![30 * q % 100 * DAY / 100, 30 * q / 100, n]),
                _ => (&["years", "year", "y", "yr", "yrs"], vec![0, 0, n * 12 + 12 * q / 100]),
            };
            let g = sg(r);
            let v = v.into_iter().map(|x| g * x).collect();
            let sign = if g < 0 { "-" } else { "" };
            let k = u[0].as_bytes()[0].to_ascii_uppercase();
            if r.chance(1, 4) {
                // the designators of ISO 8601 take them too
                let t = if matches!(u[0], "hours" | "minutes" | "seconds") { "T" } else { "" };
                return (format!("P{t}{sign}{n}.{f}{}", k as char), v, None);
            }
            (format!("{sign}{n}.{f} {}", *r.pick(u)), v, None)
        }
        6 => {
            // days, months and years in words, the time in figures
            let mut p = vec![];
            for (n, u) in [(y, &["year", "years", "y"][..]), (mo, &["mon", "mons", "month", "months"][..]), (d, &["day", "days", "d"][..])] {
                if r.chance(2, 3) && n != 0 {
                    p.push((n, *r.pick(u)));
                }
            }
            let mut v = vec![tg * tod, 0, 0];
            let mut out = vec![];
            for (n, u) in &p {
                out.push(format!("{n} {u}"));
                match u.as_bytes()[0] {
                    b'y' => v[2] += n * 12,
                    b'm' => v[2] += n,
                    _ => v[1] += n,
                }
            }
            out.push(format!("{}{hms}", if tg < 0 { "-" } else if p.last().is_some_and(|x| x.0 < 0) { "+" } else { "" }));
            let c = |k: u8| p.iter().filter(|x| x.1.as_bytes()[0] == k).map(|x| x.0).sum::<i64>();
            let parts = [c(b'y'), c(b'm'), c(b'd'), tg * h, tg * mi, tg * (s * 1_000_000 + us)];
            (out.join(" "), v, Some(parts))
        }
        _ => {
            // any number of units in words, perhaps "ago"
            type U = (&'static [&'static str], i64, usize);
            const US: &[U] = &[
                (&["millennium", "millennia", "mil", "mils"], 12000, 2),
                (&["century", "centuries", "cent", "c"], 1200, 2),
                (&["decade", "decades", "dec", "decs"], 120, 2),
                (&["year", "years", "yr", "yrs", "y"], 12, 2),
                (&["month", "months", "mon", "mons"], 1, 2),
                (&["week", "weeks", "w"], 7, 1),
                (&["day", "days", "d"], 1, 1),
                (&["hour", "hours", "hr", "hrs", "h"], 3_600_000_000, 0),
                (&["minute", "minutes", "min", "mins", "m"], 60_000_000, 0),
                (&["second", "seconds", "sec", "secs", "s"], 1_000_000, 0),
                (&["millisecond", "milliseconds", "msec", "msecs", "ms"], 1000, 0),
                (&["microsecond", "microseconds", "usec", "usecs", "us"], 1, 0),
            ];
            let mut v = vec![0i64; 3];
            let mut parts = [0i64; 6];
            let mut out = vec![];
            let want = if r.chance(1, 5) { 1 + r.us(US.len()) } else { 1 + r.us(4) };
            let mut ix: Vec<usize> = (0..US.len()).collect();
            r.shuffle(&mut ix);
            ix.truncate(want);
            if r.chance(4, 5) {
                ix.sort_unstable();
            }
            let secs = ix.iter().filter(|i| **i >= 9).count();
            let mut room = 250;
            for i in ix {
                // far more than one of the next greater unit holds, at times
                const MOST: [i64; 12] = [50, 500, 5_000, 50_000, 600_000, 1_000_000, 10_000_000, 1_000_000, 99_999_999, 999_999_999, 2_000_000_000, 2_000_000_000];
                let most = if r.chance(1, 4) { *r.pick(&[100, 1_500, 100_000, i64::MAX]) } else { 40 };
                let n = r.range(0, most.min(MOST[i])) * sg(r);
                let u = *r.pick(US[i].0);
                let u = cased(r, u);
                let sp = if r.chance(5, 6) { " " } else { "" };
                let f = format!("{n}{sp}{u}");
                if f.len() > room {
                    continue;
                }
                room -= f.len();
                out.push(f);
                v[US[i].2] += n * US[i].1;
                match i {
                    0..=3 => parts[0] += n * US[i].1 / 12,
                    4 => parts[1] += n,
                    5 | 6 => parts[2] += n * US[i].1,
                    7 => parts[3] += n,
                    8 => parts[4] += n,
                    _ => parts[5] += n * US[i].1,
                }
            }
            let mut s = out.join(" ");
            let at = r.chance(1, 5);
            if at {
                s = format!("@ {s}");
            }
            if r.chance(1, 4) {
                s += " ago";
                v.iter_mut().for_each(|x| *x = -*x);
                return (s, v, None);
            }
            // the seconds and their fractions are several parts in one place
            (s, v, if at || secs > 1 { None } else { Some(parts) })
        }
    }
}
/// more white space around the fields (an ISO 8601 interval is one word and takes none)
fn spread(r: &mut Rng, s: &str) -> String {
    if s.trim_start_matches('-').starts_with('P') {
        return s.to_string();
    }
    let ws = |r: &mut Rng, least: usize| -> String { (0..least + r.us(3)).map(|_| *r.pick(&[' ', ' ', ' ', ' ', '\t', '\n', '\r'])).collect() };
    let mut t = ws(r, 0);
    for c in s.chars() {
        if c == ' ' {
            t += &ws(r, 1);
        } else {
            t.push(c);
        }
    }
    t + &ws(r, 0)
}
fn spelled(r: &mut Rng, k: K) -> Cmd {
    let dst = r.chance(2, 3).then(|| r.below(4) as u8);
    // days whose year has four digits, mostly
    let day = |r: &mut Rng| {
        let d = gen::date_val(r);
        if r.chance(5, 6) {
            d.clamp(-730_000, 2_921_000)
        } else {
            d.clamp(DATE_MIN, TS_END / DAY - 1)
        }
    };
    match k {
        K::DateParse => {
            if r.chance(1, 16) {
                let pos = r.chance(1, 2);
                let s = cased(r, "infinity");
                return Cmd {
                    k,
                    s: if pos { s } else { format!("-{s}") },
                    e: vec![r.below(3) as u8],
                    a: vec![],
                    dst,
                    want: Some(vec![if pos { DINF } else { DNINF }]),
                };
            }
            let dn = day(r);
            let (s, o) = date_spelling(r, dn);
            Cmd { k, s, e: vec![o], a: vec![], dst, want: Some(vec![dn]) }
        }
        K::TimeParse => {
            let x = gen::time_val(r);
            let (s, t) = time_spelling(r, x, false);
            let (s, t) = if r.chance(1, 20) { ("allballs".to_string(), 0) } else { (s, t) };
            text_cmd(k, s, -1, r.below(3) as u8, dst, vec![t])
        }
        K::TsParse => {
            if r.chance(1, 16) {
                let (s, t) = *r.pick(&[("infinity", TINF), ("-infinity", TNINF)]);
                return text_cmd(k, cased(r, s), -1, r.below(3) as u8, dst, vec![t]);
            }
            let dn = day(r);
            let x = gen::time_val(r);
            let (d, o) = date_spelling(r, dn);
            let pl = r.chance(1, 2);
            let (t, tv) = time_spelling(r, x, pl);
            let (y, m, dd) = civil(dn);
            let s = match r.below(11) {
                8 if y > 0 && y <= 9999 => {
                    // the time comes first, or in the middle
                    let (mn, c) = (month_name(r, m), model::clock(x.min(DAY - 1)));
                    let s = match r.below(3) {
                        0 => format!("{c} {mn} {dd}, {y:04}"),
                        1 => format!("{mn} {dd} {c} {y:04}"),
                        _ => format!("{dd} {mn} {c} {y:04}"),
                    };
                    return text_cmd(k, s, -1, o, dst, vec![dn * DAY + x.min(DAY - 1)]);
                }
                9 if dn > -2_400_000 => {
                    // the fraction of a Julian day is a time
                    let f = *r.pick(&["", ".25", ".5", ".75"]);
                    let (f, t) = match f {
                        "" => (f, 0),
                        ".25" => (f, 1),
                        ".5" => (f, 2),
                        _ => (f, 3),
                    };
                    let w = *r.pick(&["J", "j"]);
                    return text_cmd(k, format!("{w}{}{f}", dn + 2_451_545), -1, o, dst, vec![dn * DAY + t * (DAY / 4)]);
                }
                10 if y > 999 && y <= 9999 => {
                    let c = x.min(DAY - 1);
                    let (h, mi, se) = (c / 3_600_000_000, c / 60_000_000 % 60, c / 1_000_000 % 60);
                    let sep = *r.pick(&["T", " ", "t", " at "]);
                    let (s, t) = if sep == " at " {
                        (format!("{y:04}-{m:02}-{dd:02} at {}", model::clock(c)), c)
                    } else {
                        (format!("{y:04}{m:02}{dd:02}{sep}{h:02}{mi:02}{se:02}"), c - c % 1_000_000)
                    };
                    return text_cmd(k, s, -1, o, dst, vec![dn * DAY + t]);
                }
                0 if y > 0 => {
                    let w = FULL_WD[(dn + 6).rem_euclid(7) as usize];
                    let (w, mn) = (cased(r, &w[..3]), month_name(r, m));
                    return text_cmd(k, format!("{w} {mn} {dd:02} {} {y:04}", model::clock(x.min(DAY - 1))), -1, r.below(3) as u8, dst, vec![dn * DAY + x.min(DAY - 1)]);
                }
                1 if y > 0 => {
                    return text_cmd(k, format!("{y:04}-{m:02}-{dd:02}T{}", model::clock(x.min(DAY - 1))), -1, o, dst, vec![dn * DAY + x.min(DAY - 1)])
                }
                2 => {
                    return text_cmd(k, d, -1, o, dst, vec![dn * DAY]);
                }
                _ => {
                    if let Some(b) = d.strip_suffix(" BC").or(d.strip_suffix(" bc")) {
                        format!("{b} {t} BC")
                    } else {
                        format!("{d} {t}")
                    }
                }
            };
            text_cmd(k, s, -1, o, dst, vec![dn * DAY + tv])
        }
        _ => {
            let (s, mut v, parts) = iv_spelling(r);
            let mut st = r.below(4) as u8;
            if st == 2 && s.trim_start_matches(['@', ' ']).starts_with('-') {
                // a leading sign that stands alone speaks for everything there
                let alone = !s[1..].contains([' ', '-', '+']) || !s.contains(" -") && !s.contains(" +");
                match parts {
                    Some(p) if s.starts_with('-') && alone => {
                        let [y, mo, d, h, mi, us] = p.map(|x| -x.abs());
                        v = vec![(h * 60 + mi) * 60_000_000 + us, d, y * 12 + mo];
                    }
                    // each part has its own sign
                    _ if s.starts_with('-') && !s.contains("ago") && (s.contains(" -") || s.contains(" +")) => {}
                    None if !s.contains(' ') && s.starts_with('-') => {}
                    _ => st = 0,
                }
            }
            text_cmd(K::IvParse, s, -1, st, dst, v)
        }
    }
}

// ---- texts that name no value (C20) -----------------------------------------------------------
const NO_WORDS: &[&str] = &["quux", "foo", "janember", "fooday", "xyzzy", "lightyears", "blah", "maybe", "dayish", "hourly"];
/// year, month and day of which one is not possible
fn no_day(r: &mut Rng) -> (i64, i64, i64, &'static str) {
    let dn = gen::date_val(r).clamp(-730_000, 2_921_000);
    let (y, m, d) = civil(dn);
    let y = y.clamp(1, 9999);
    let bc = r.chance(1, 4);
    let y = if bc { (y % 4700).max(1) } else { y };
    let (y, m, d) = match r.below(7) {
        0 => (y, *r.pick(&[0, 13, 14, 19, 31, 99]), d.min(28)),
        1 => (y, m, *r.pick(&[0, 32, 33, 39, 99])),
        2 => (y, *r.pick(&[4, 6, 9, 11]), 31),
        3 => (y, 2, *r.pick(&[30, 31])),
        4 => {
            // not a leap year; before Christ the leap years are 1, 5, 9 and so on, but not 101, 201, 301
            let c = *r.pick(&[1, 3, 5, 7, 9, 11, 15, 17, 18, 19, 21, 22, 23, 99]) * 100;
            let n = if r.chance(1, 2) { c } else { (y / 4 * 4 + r.range(1, 3)).min(9999) };
            (if bc { n % 4700 + 1 } else { n }, 2, 29)
        }
        5 => (0, m, d.min(28)),
        _ => (y, r.range(13, 99), r.range(32, 99)),
    };
    (y, m, d, if bc { " BC" } else { "" })
}
fn no_date(r: &mut Rng) -> (String, u8) {
    let o = r.below(3) as u8;
    let any = gen::date_val(r).clamp(-700_000, 2_921_000);
    let (y, m, d) = civil(any);
    let y = y.clamp(1, 9999);
    match r.below(15) {
        0 => (String::new(), o),
        1 => (" ".repeat(1 + r.us(3)), o),
        7 => (twice(r, &[('y', y), ('m', m), ('d', d.min(28))]), o),
        2 => {
            let w = *r.pick(NO_WORDS);
            let w = cased(r, w);
            let s = match r.below(4) {
                0 => format!("{w} {d}, {y:04}"),
                1 => format!("{d} {w} {y:04}"),
                2 => format!("{y:04}-{m:02}-{d:02} {w}"),
                _ => w,
            };
            (s, o)
        }
        3 => {
            // the day of the year
            (format!("{y:04}.{:03}", *r.pick(&[0, 367, 368, 400, 999])), o)
        }
        4 => {
            // past the ends
            let s = match r.below(5) {
                0 => format!("4714-11-{:02} BC", r.range(1, 23)),
                1 => format!("{}-{m:02}-{:02} BC", r.range(4715, 99_999), d.min(28)),
                2 => format!("{}-{m:02}-{:02}", r.range(5_874_898, 9_999_999), d.min(28)),
                3 => format!("4714-{:02}-{:02} BC", r.range(1, 10), d.min(28)),
                _ => format!("{}-{m:02}-{:02}", r.range(10_000_000, 2_000_000_000), d.min(28)),
            };
            (s, o)
        }
        5 => (format!("0000-{m:02}-{:02} {}", d.min(28), *r.pick(&["BC", "AD"])), o),
        6 => {
            // one field too few, or too many
            let mn = month_name(r, m);
            let s = match r.below(5) {
                0 => format!("{mn} {y:04}"),
                1 => mn,
                2 => format!("{y:04}-{m:02}-{:02} {y:04}-{m:02}-{:02}", d.min(28), d.min(28)),
                3 => format!("{mn} {mn} {d}, {y:04}"),
                _ => format!("{y:04}-{m:02}-{:02}-07", d.min(28)),
            };
            (s, o)
        }
        _ => {
            let (y, m, d, e) = no_day(r);
            let mn = |r: &mut Rng| if (1..=12).contains(&m) { Some(month_name(r, m)) } else { None };
            // in the months' own words there is one way less to be wrong
            match (r.below(8), mn(r)) {
                (0, Some(n)) if y > 0 && d > 0 => (format!("{n} {d}, {y:04}{e}"), o),
                (1, Some(n)) if y > 0 && d > 0 => (format!("{d:02}-{n}-{y:04}{e}"), o),
                (2, _) if y > 0 => (format!("{d:02}/{m:02}/{y:04}{e}"), 1),
                (3, _) if y > 0 => (format!("{m:02}/{d:02}/{y:04}{e}"), 2),
                (4, _) if y > 999 => (format!("{y:04}{m:02}{d:02}{e}"), o),
                (5, _) if y > 0 => (format!("{d:02}.{m:02}.{y:04}{e}"), 1),
                _ => (format!("{y:04}-{m:02}-{d:02}{e}"), o),
            }
        }
    }
}
/// labelled fields, one of them twice
fn twice(r: &mut Rng, f: &[(char, i64)]) -> String {
    let at = r.us(f.len());
    let mut s = String::new();
    for (i, (c, n)) in f.iter().enumerate() {
        // a second "m" after the hours stands for the minutes
        let mm = if i == 4 && r.chance(1, 2) { "m" } else { "" };
        let w = if i == 0 { 4 } else { 2 };
        s += &format!("{c}{mm}{n:0w$}");
        if i == at {
            let again = if r.chance(1, 2) { *n } else { (n + 1).min(if i == 0 { 9999 } else { 12 }) };
            s += &format!("{c}{mm}{again:0w$}");
        }
    }
    s
}
fn labels_twice(r: &mut Rng) -> String {
    let (h, m, s) = (r.range(0, 23), r.range(0, 59), r.range(0, 59));
    let mut f = vec![('y', r.range(1000, 9999)), ('m', r.range(1, 12)), ('d', r.range(1, 28)), ('h', h), ('m', m), ('s', s)];
    f.truncate(4 + r.us(3));
    twice(r, &f)
}
/// joined digits are checked in times alone (PostgreSQL lets them carry over in timestamps)
fn no_time(r: &mut Rng, joined: bool) -> String {
    let (h, m, s) = (r.range(0, 23), r.range(0, 59), r.range(0, 59));
    match r.below(if joined { 9 } else { 7 }) {
        0 => format!("{:02}:{m:02}:{s:02}", r.range(25, 99)),
        1 => format!("{h:02}:{:02}:{s:02}", r.range(60, 99)),
        2 => format!("{h:02}:{m:02}:{:02}", r.range(61, 99)),
        3 => match r.below(4) {
            0 => "24:00:01".to_string(),
            1 => "24:01".to_string(),
            2 => "24:00:00.000001".to_string(),
            _ => format!("24:{:02}:{s:02}", r.range(1, 59)),
        },
        4 => format!("{}:{m:02} {}", r.range(13, 23), *r.pick(&["AM", "PM", "am", "pm"])),
        5 => format!("{h:02}:{m:02}:{s:02} {h:02}:{m:02}:{s:02}"),
        6 => format!("{h:02}:{m:02}:{s:02} {}", *r.pick(NO_WORDS)),
        7 => format!("{:02}{m:02}{s:02}", r.range(25, 99)),
        _ => format!("{h:02}{:02}{s:02}", r.range(60, 99)),
    }
}
fn no_interval(r: &mut Rng) -> String {
    let n = r.range(1, 40);
    let (h, m, s) = (r.range(0, 99), r.range(0, 59), r.range(0, 59));
    const U: &[&str] = &["years", "months", "days", "hours", "minutes", "seconds", "weeks"];
    let u = *r.pick(U);
    match r.below(15) {
        0 => String::new(),
        1 => " ".repeat(1 + r.us(3)),
        2 => {
            let w = *r.pick(NO_WORDS);
            format!("{n} {}", cased(r, w))
        }
        3 => {
            let w = *r.pick(NO_WORDS);
            format!("{n} {u} {w}")
        }
        // the same field twice
        4 => format!("{n} {u} {} {u}", r.range(1, 40)),
        5 => format!("{h:02}:{m:02}:{s:02} {h:02}:{m:02}:{s:02}"),
        6 => format!("{h:02}:{:02}:{s:02}", r.range(60, 99)),
        7 => format!("{h:02}:{m:02}:{:02}", r.range(61, 99)),
        8 => format!("{n}-{}", r.range(12, 99)),
        9 => format!("{} {u}", r.range(i32::MAX as i64 + 1, 99_999_999_999)),
        10 => format!("{} {}", r.range(178_956_971, i32::MAX as i64), *r.pick(&["years", "decades", "centuries"])),
        11 => {
            let c = *r.pick(&["P", "PT", "P1X", "P1S", "P1H", "PT1Y", "PT1D", "PT1W", "P1Y2M3D4H", "P1YT2D", "P1Y2", "PY", "PT1.5.5S", "P1YX", "Px"]);
            // an alternative-format text is not among these
            if matches!(c, "PT" | "P1Y2") { "P".to_string() } else { c.to_string() }
        }
        12 => format!("P{}Y", r.range(178_956_971, i32::MAX as i64)),
        13 => format!("P{}D", r.range(i32::MAX as i64 + 1, 99_999_999_999)),
        _ => format!("{} {u}", cased(r, "ago")),
    }
}
fn impossible(r: &mut Rng, k: K) -> Cmd {
    let dst = r.chance(2, 3).then(|| r.below(4) as u8);
    match k {
        K::DateParse => {
            let (s, o) = no_date(r);
            Cmd { k, s, e: vec![o], a: vec![], dst, want: Some(vec![]) }
        }
        K::TimeParse => {
            let s = match r.below(16) {
                0 => "".to_string(),
                1 => labels_twice(r),
                _ => no_time(r, true),
            };
            text_cmd(k, s, *r.pick(&[-1, -1, 0, 3, 6]), r.below(3) as u8, dst, vec![])
        }
        K::TsParse => {
            let x = gen::time_val(r);
            let dn = gen::date_val(r).clamp(-700_000, 2_921_000);
            let (s, o) = match r.below(10) {
                9 => (labels_twice(r), r.below(3) as u8),
                0..=2 => {
                    let (d, o) = no_date(r);
                    let (t, _) = time_spelling(r, x, true);
                    if d.trim().is_empty() {
                        (d, o)
                    } else if let Some(b) = d.strip_suffix(" BC") {
                        (format!("{b} {t} BC"), o)
                    } else {
                        (format!("{d} {t}"), o)
                    }
                }
                3..=5 => {
                    let t = no_time(r, false);
                    let (y, m, d) = civil(dn);
                    let bc = if y > 0 { "" } else { " BC" };
                    (format!("{:04}-{m:02}-{d:02} {t}{bc}", if y > 0 { y } else { 1 - y }), r.below(3) as u8)
                }
                _ => {
                    // after the last one
                    let (_, m, d) = civil(dn);
                    let s = match r.below(4) {
                        0 => format!("294277-01-{:02} {}", r.range(1, 31), model::clock(x.min(DAY - 1))),
                        1 => format!("{}-{m:02}-{d:02} 00:00:00", r.range(294_278, 5_874_897)),
                        2 => "294276-12-31 24:00:00".to_string(),
                        _ => format!("4714-11-{:02} 23:59:59.999999 BC", r.range(1, 23)),
                    };
                    (s, r.below(3) as u8)
                }
            };
            text_cmd(k, s, *r.pick(&[-1, -1, 0, 3, 6]), o, dst, vec![])
        }
        _ => text_cmd(K::IvParse, no_interval(r), -1, r.below(4) as u8, dst, vec![]),
    }
}
