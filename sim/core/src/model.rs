//! A small executable reference model of the four types: days are counted from 2000-01-01 in the
//! proleptic Gregorian calendar, times and timestamps in microseconds, intervals as the three parts
//! (microseconds, days, months). Written from PostgreSQL's documentation and calendar arithmetic,
//! in wide integers, without the code under test.
use crate::gen::{DATE_END, DATE_MIN, DAY, TS_END, TS_MIN};
use crate::oldrel::civil;
use adapter::{Op, Res, K};

pub const DINF: i64 = i32::MAX as i64;
pub const DNINF: i64 = i32::MIN as i64;
pub const TINF: i64 = i64::MAX;
pub const TNINF: i64 = i64::MIN;
const HOUR: i64 = 3_600_000_000;
const MIN: i64 = 60_000_000;
const SEC: i64 = 1_000_000;
const J2000: i64 = 2_451_545;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    I32(i64),
    I128(i128),
    U64s(Vec<u64>),
    F(f64),
    D(i64),
    T(i64),
    OT(Option<i64>),
    S(i64),
    I(i64, i64, i64),
    Str(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Is(Out),
    /// refused
    Err,
    /// a float within a relative tolerance
    Near(f64, f64),
    /// an interval whose months are exact and whose days and time come to this many microseconds,
    /// give or take
    /// (the days themselves too, unless rounding could move one between days and time)
    NearIv { m: i64, d: Option<i64>, us: i128, tol: i128 },
    OneOf(Vec<Out>),
    ErrOr(Box<Want>),
    /// ordering of the two operands
    Cmp(std::cmp::Ordering),
    /// the reference says nothing
    Any,
}
use Want::*;
fn is(o: Out) -> Want {
    Is(o)
}
fn err_or(o: Out) -> Want {
    ErrOr(Box::new(Is(o)))
}
fn maybe(ok: bool, o: Out) -> Want {
    if ok {
        Is(o)
    } else {
        Err
    }
}

pub fn leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
pub fn dim(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// day number of a date, astronomical year
pub fn day(y: i64, m: i64, d: i64) -> i64 {
    // days before January 1st of year y, counted from 2000
    let p = y - 1;
    let before = p * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    let base = 1999 * 365 + 499 - 19 + 4;
    let mut n = before - base;
    for k in 1..m {
        n += dim(y, k);
    }
    n + d - 1
}
pub fn astro(y: i64) -> i64 {
    if y < 0 {
        y + 1
    } else {
        y
    }
}
pub fn no_zero(y: i64) -> i64 {
    if y <= 0 {
        y - 1
    } else {
        y
    }
}
pub fn dinf(d: i64) -> bool {
    d == DINF || d == DNINF
}
pub fn tinf(t: i64) -> bool {
    t == TINF || t == TNINF
}
fn dfin(d: i64) -> bool {
    (DATE_MIN..DATE_END).contains(&d)
}
fn tfin(t: i128) -> bool {
    (TS_MIN as i128..TS_END as i128).contains(&t)
}
fn dw(d: i64) -> Want {
    maybe(dfin(d), Out::D(d))
}
fn tw(t: i128) -> Want {
    maybe(tfin(t), Out::S(t as i64))
}
fn i32ok(x: i128) -> bool {
    (i32::MIN as i128..=i32::MAX as i128).contains(&x)
}
fn i64ok(x: i128) -> bool {
    (i64::MIN as i128..=i64::MAX as i128).contains(&x)
}
fn ivw(t: i128, d: i128, m: i128) -> Want {
    maybe(i64ok(t) && i32ok(d) && i32ok(m), Out::I(t as i64, d as i64, m as i64))
}
/// None: no timestamp for that day
pub fn day_ts(d: i64) -> Option<i64> {
    match d {
        DINF => Some(TINF),
        DNINF => Some(TNINF),
        d => {
            let t = d as i128 * DAY as i128;
            tfin(t).then_some(t as i64)
        }
    }
}

/// the moment moved by months, then days, then time; Err: some step leaves the range, with the
/// final moment where only an intermediate one does
fn shift(s: i64, (t, d, m): (i128, i128, i128)) -> Want {
    if tinf(s) {
        return is(Out::S(s));
    }
    let mut out = false;
    let mut s = s as i128;
    if m != 0 {
        let (dn, tod) = (s.div_euclid(DAY as i128) as i64, s.rem_euclid(DAY as i128));
        let (y, mo, dd) = civil(dn);
        let all = y * 12 + (mo - 1) + m as i64;
        let (y, mo) = (all.div_euclid(12), all.rem_euclid(12) + 1);
        s = day(y, mo, dd.min(dim(y, mo))) as i128 * DAY as i128 + tod;
        out |= !tfin(s);
    }
    s += d * DAY as i128;
    out |= !tfin(s);
    s += t;
    if !tfin(s) {
        Err
    } else if out {
        err_or(Out::S(s as i64))
    } else {
        is(Out::S(s as i64))
    }
}
fn neg(v: (i64, i64, i64)) -> Option<(i128, i128, i128)> {
    if v.0 == i64::MIN || v.1 == DNINF || v.2 == DNINF {
        return None;
    }
    Some((-v.0 as i128, -v.1 as i128, -v.2 as i128))
}
fn wide(v: (i64, i64, i64)) -> (i128, i128, i128) {
    (v.0 as i128, v.1 as i128, v.2 as i128)
}
fn unshift(s: i64, v: (i64, i64, i64)) -> Want {
    match neg(v) {
        Some(v) => shift(s, v),
        None if tinf(s) => Any,
        None => Err,
    }
}
fn diff(a: i64, b: i64) -> Want {
    if tinf(a) || tinf(b) {
        return Err;
    }
    let x = a as i128 - b as i128;
    if !i64ok(x) {
        return Err;
    }
    let x = x as i64;
    is(Out::I(x % DAY, x / DAY, 0))
}
struct Fields {
    y: i64,
    mo: i64,
    d: i64,
    h: i64,
    mi: i64,
    s: i64,
    us: i64,
    dn: i64,
}
fn fields(t: i64) -> Fields {
    let (dn, tod) = (t.div_euclid(DAY), t.rem_euclid(DAY));
    let (y, mo, d) = civil(dn);
    Fields { y, mo, d, h: tod / HOUR, mi: tod / MIN % 60, s: tod / SEC % 60, us: tod % SEC, dn }
}
fn age(a: i64, b: i64) -> Want {
    if tinf(a) || tinf(b) {
        return Err;
    }
    let back = a < b;
    let (hi, lo) = if back { (b, a) } else { (a, b) };
    let (p, q) = (fields(hi), fields(lo));
    let mut t = hi.rem_euclid(DAY) - lo.rem_euclid(DAY);
    let mut d = p.d - q.d;
    let mut m = p.mo - q.mo;
    let mut y = p.y - q.y;
    if t < 0 {
        t += DAY;
        d -= 1;
    }
    while d < 0 {
        d += dim(q.y, q.mo);
        m -= 1;
    }
    while m < 0 {
        m += 12;
        y -= 1;
    }
    let g = if back { -1 } else { 1 };
    is(Out::I(g * t, g * d, g * (y * 12 + m)))
}

pub fn measure(v: (i64, i64, i64)) -> i128 {
    (v.2 as i128 * 30 + v.1 as i128) * DAY as i128 + v.0 as i128
}
fn cmp<T: Ord>(a: T, b: T) -> Want {
    Cmp(a.cmp(&b))
}

// ---- fields of moments ---------------------------------------------------------------------
/// Monday of the week a day is in
fn monday(dn: i64) -> i64 {
    // 2000-01-03 was a Monday
    dn - (dn - 2).rem_euclid(7)
}
fn iso(dn: i64) -> (i64, i64) {
    // the week belongs to the year of its Thursday
    let th = monday(dn) + 3;
    let (y, _, _) = civil(th);
    (y, (th - day(y, 1, 1)) / 7 + 1)
}
pub mod u {
    pub const DELTA: u8 = 0;
    pub const SECOND: u8 = 1;
    pub const MINUTE: u8 = 2;
    pub const HOUR: u8 = 3;
    pub const DAY: u8 = 4;
    pub const WEEK: u8 = 5;
    pub const MONTH: u8 = 6;
    pub const QUARTER: u8 = 7;
    pub const YEAR: u8 = 8;
    pub const DECADE: u8 = 9;
    pub const CENTURY: u8 = 10;
    pub const MILLISEC: u8 = 11;
    pub const MICROSEC: u8 = 12;
    pub const JULIAN: u8 = 13;
    pub const DOW: u8 = 14;
    pub const ISODOW: u8 = 15;
    pub const DOY: u8 = 16;
    pub const MILLENNIUM: u8 = 20;
    pub const ISOYEAR: u8 = 21;
    pub const EPOCH: u8 = 22;
}
fn ints(x: i64) -> Want {
    Near(x as f64, 0.0)
}
fn secs(us: i64, unit: u8) -> Want {
    Near(
        match unit {
            u::SECOND => us as f64 / 1e6,
            u::MILLISEC => us as f64 / 1e3,
            _ => us as f64,
        },
        1e-12,
    )
}
fn part(t: i64, ft: u8, unit: u8) -> Want {
    if ft == 1 {
        return Any;
    }
    if tinf(t) {
        return match unit {
            u::SECOND | u::MINUTE | u::HOUR | u::DAY | u::WEEK | u::MONTH | u::QUARTER | u::MILLISEC | u::MICROSEC
            | u::DOW | u::ISODOW | u::DOY => Near(0.0, 0.0),
            u::YEAR | u::DECADE | u::CENTURY | u::MILLENNIUM | u::JULIAN | u::ISOYEAR => {
                is(Out::F(if t == TINF { f64::INFINITY } else { f64::NEG_INFINITY }))
            }
            u::DELTA => Err,
            _ => Any,
        };
    }
    let f = fields(t);
    match unit {
        u::SECOND | u::MILLISEC | u::MICROSEC => secs(f.s * SEC + f.us, unit),
        u::MINUTE => ints(f.mi),
        u::HOUR => ints(f.h),
        u::DAY => ints(f.d),
        u::WEEK => ints(iso(f.dn).1),
        u::MONTH => ints(f.mo),
        u::QUARTER => ints((f.mo - 1) / 3 + 1),
        u::YEAR => ints(no_zero(f.y)),
        u::ISOYEAR => ints(no_zero(iso(f.dn).0)),
        u::DECADE => ints(f.y.div_euclid(10)),
        u::CENTURY => ints(span(f.y, 100)),
        u::MILLENNIUM => ints(span(f.y, 1000)),
        u::JULIAN => Near((f.dn + J2000) as f64 + t.rem_euclid(DAY) as f64 / DAY as f64, 1e-15),
        u::DOW => ints((f.dn + 6).rem_euclid(7)),
        u::ISODOW => ints((f.dn + 5).rem_euclid(7) + 1),
        u::DOY => ints(f.dn - day(f.y, 1, 1) + 1),
        _ => Err,
    }
}
/// number of the century or millennium a year is in, without zero
fn span(y: i64, n: i64) -> i64 {
    if y > 0 {
        (y + n - 1) / n
    } else {
        -((n - y) / n)
    }
}
/// first year of it
fn span_start(y: i64, n: i64) -> i64 {
    let k = span(y, n);
    if k > 0 {
        (k - 1) * n + 1
    } else {
        // n, 2n, ... BC
        1 + k * n
    }
}
fn trunc_ts(t: i64, ft: u8, unit: u8) -> Want {
    if tinf(t) {
        return if ft == 0 && trunc_unit(unit) { is(Out::S(t)) } else { Any };
    }
    if ft == 1 || !trunc_unit(unit) {
        return Err;
    }
    let f = fields(t);
    let d = |y: i64, m: i64, d: i64| tw(day(y, m, d) as i128 * DAY as i128);
    let to = |n: i64| is(Out::S(t - t.rem_euclid(n)));
    match unit {
        u::MICROSEC => is(Out::S(t)),
        u::MILLISEC => to(1000),
        u::SECOND => to(SEC),
        u::MINUTE => to(MIN),
        u::HOUR => to(HOUR),
        u::DAY => to(DAY),
        u::WEEK => tw(monday(f.dn) as i128 * DAY as i128),
        u::MONTH => d(f.y, f.mo, 1),
        u::QUARTER => d(f.y, (f.mo - 1) / 3 * 3 + 1, 1),
        u::YEAR => d(f.y, 1, 1),
        u::DECADE => d(f.y.div_euclid(10) * 10, 1, 1),
        u::CENTURY => d(span_start(f.y, 100), 1, 1),
        _ => d(span_start(f.y, 1000), 1, 1),
    }
}
fn trunc_unit(unit: u8) -> bool {
    matches!(
        unit,
        u::MICROSEC | u::MILLISEC | u::SECOND | u::MINUTE | u::HOUR | u::DAY | u::WEEK | u::MONTH | u::QUARTER | u::YEAR
            | u::DECADE | u::CENTURY | u::MILLENNIUM
    )
}

// ---- text ----------------------------------------------------------------------------------
pub fn frac(us: i64) -> String {
    if us == 0 {
        String::new()
    } else {
        format!(".{us:06}").trim_end_matches('0').to_string()
    }
}
pub fn clock(t: i64) -> String {
    format!("{:02}:{:02}:{:02}{}", t / HOUR, t / MIN % 60, t / SEC % 60, frac(t % SEC))
}
fn ydisp(y: i64) -> (String, &'static str) {
    if y > 0 {
        (format!("{y:04}"), "")
    } else {
        (format!("{:04}", 1 - y), " BC")
    }
}
pub const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
pub const WD: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
/// styles: 0 Postgres, 1 ISO, 2 SQL, 3 German, 4 XSD; orders: 0 YMD, 1 DMY, 2 MDY
fn dpart(dn: i64, style: u8, order: u8) -> (Vec<String>, &'static str) {
    let (y, m, d) = civil(dn);
    let (y, bc) = ydisp(y);
    let s = match (style % 5, order % 3) {
        (1, _) | (4, _) => vec![format!("{y}-{m:02}-{d:02}")],
        (2, 1) => vec![format!("{d:02}/{m:02}/{y}")],
        (2, _) => vec![format!("{m:02}/{d:02}/{y}")],
        (3, _) => vec![format!("{d:02}.{m:02}.{y}")],
        (_, 1) => vec![format!("{d:02}.{m:02}.{y}"), format!("{d:02}-{m:02}-{y}")],
        _ => vec![format!("{m:02}.{d:02}.{y}"), format!("{m:02}-{d:02}-{y}")],
    };
    (s, bc)
}
fn inf_text(pos: bool) -> Vec<String> {
    vec![if pos { "infinity" } else { "-infinity" }.into()]
}
pub fn date_texts(dn: i64, style: u8, order: u8) -> Vec<String> {
    if dinf(dn) {
        return inf_text(dn > 0);
    }
    let (v, bc) = dpart(dn, style, order);
    v.into_iter().map(|s| s + bc).collect()
}
pub fn ts_texts(t: i64, style: u8, order: u8) -> Vec<String> {
    if tinf(t) {
        return inf_text(t > 0);
    }
    let (dn, tod) = (t.div_euclid(DAY), t.rem_euclid(DAY));
    if style % 5 == 0 {
        let (y, m, d) = civil(dn);
        let (y, bc) = ydisp(y);
        let w = WD[(dn + 6).rem_euclid(7) as usize];
        let m = MON[m as usize - 1];
        let md = if order % 3 == 1 { format!("{d:02} {m}") } else { format!("{m} {d:02}") };
        return vec![format!("{w} {md} {} {y}{bc}", clock(tod))];
    }
    let (v, bc) = dpart(dn, style, order);
    let sep = if style % 5 == 4 { "T" } else { " " };
    v.into_iter().map(|s| format!("{s}{sep}{}{bc}", clock(tod))).collect()
}
pub fn hours_ok(t: i64) -> bool {
    (t / HOUR).abs() <= i32::MAX as i64
}
/// styles: 0 Postgres, 1 verbose, 2 SQL standard, 3 ISO 8601
pub fn iv_text(v: (i64, i64, i64), style: u8) -> Option<String> {
    let (t, d, m) = v;
    if !hours_ok(t) {
        return None;
    }
    let (y, mo) = (m / 12, m % 12);
    let (h, mi, s, us) = (t / HOUR, t / MIN % 60, t / SEC % 60, t % SEC);
    let at = t.unsigned_abs();
    let hms = |pad: bool| {
        let hh = at / HOUR as u64;
        let hh = if pad { format!("{hh:02}") } else { hh.to_string() };
        format!("{hh}:{:02}:{:02}{}", at / MIN as u64 % 60, at / SEC as u64 % 60, frac((at % SEC as u64) as i64))
    };
    let sec = || format!("{}{}", s.abs(), frac(us.abs()));
    let mut out = String::new();
    match style % 4 {
        0 => {
            let mut before = false;
            for (n, unit) in [(y, "year"), (mo, "mon"), (d, "day")] {
                if n == 0 {
                    continue;
                }
                if !out.is_empty() {
                    out.push(' ');
                }
                if before && n > 0 {
                    out.push('+');
                }
                out += &format!("{n} {unit}{}", if n == 1 { "" } else { "s" });
                before = n < 0;
            }
            if t != 0 || out.is_empty() {
                if !out.is_empty() {
                    out.push(' ');
                }
                out += if t < 0 {
                    "-"
                } else if before {
                    "+"
                } else {
                    ""
                };
                out += &hms(true);
            }
        }
        1 => {
            // the first field that is not zero decides whether the whole is "ago"
            out.push('@');
            let all = [(y, "year"), (mo, "mon"), (d, "day"), (h, "hour"), (mi, "min")];
            let lead = all.iter().map(|x| x.0).find(|n| *n != 0).unwrap_or(if s != 0 { s } else { us });
            let g = if lead < 0 { -1 } else { 1 };
            for (n, unit) in all {
                if n != 0 {
                    let n = n * g;
                    let one = n == 1;
                    out += &format!(" {n} {unit}{}", if one { "" } else { "s" });
                }
            }
            if s != 0 || us != 0 {
                let minus = (s < 0 || us < 0) != (g < 0);
                out += &format!(" {}{} sec{}", if minus { "-" } else { "" }, sec(), if s.abs() == 1 && us == 0 { "" } else { "s" });
            }
            if out == "@" {
                out += " 0";
            }
            if g < 0 {
                out += " ago";
            }
        }
        2 => {
            let negs = t < 0 || d < 0 || m < 0;
            let poss = t > 0 || d > 0 || m > 0;
            let sg = |n: i64| if n < 0 { '-' } else { '+' };
            if !negs && !poss {
                out.push('0');
            } else if (negs && poss) || (m != 0 && (d != 0 || t != 0)) {
                out = format!("{}{}-{} {}{} {}{}", sg(m), y.abs(), mo.abs(), sg(d), d.abs(), sg(t), hms(false));
            } else {
                if negs {
                    out.push('-');
                }
                out += &if m != 0 {
                    format!("{}-{}", y.abs(), mo.abs())
                } else if d != 0 {
                    format!("{} {}", d.abs(), hms(false))
                } else {
                    hms(false)
                };
            }
        }
        _ => {
            if t == 0 && d == 0 && m == 0 {
                return Some("PT0S".into());
            }
            out.push('P');
            for (n, c) in [(y, 'Y'), (mo, 'M'), (d, 'D')] {
                if n != 0 {
                    out += &format!("{n}{c}");
                }
            }
            if t != 0 {
                out.push('T');
                for (n, c) in [(h, 'H'), (mi, 'M')] {
                    if n != 0 {
                        out += &format!("{n}{c}");
                    }
                }
                if s != 0 || us != 0 {
                    out += &format!("{}{}S", if s < 0 || us < 0 { "-" } else { "" }, sec());
                }
            }
        }
    }
    Some(out)
}
fn texts(v: Vec<String>) -> Want {
    OneOf(v.into_iter().map(Out::Str).collect())
}

// ---- rounding ------------------------------------------------------------------------------
/// to p decimals of a second, halves away from zero
pub fn round_us(v: i64, p: i64) -> i128 {
    let scale = 10i128.pow((6 - p) as u32);
    let a = (v as i128).abs();
    let x = (a + scale / 2) / scale * scale;
    if v < 0 {
        -x
    } else {
        x
    }
}
/// microseconds of a number of seconds: two values where the half is too close to tell
fn us_of(s: f64) -> Vec<i64> {
    let x = s * 1e6;
    let f = x.floor();
    let r = x - f;
    if (r - 0.5).abs() < 0.01 {
        vec![f as i64, f as i64 + 1]
    } else {
        vec![(if r < 0.5 { f } else { f + 1.0 }) as i64]
    }
}
/// Err: refused for certain
fn hms(h: i64, m: i64, s: f64) -> Result<(bool, Vec<i64>), ()> {
    if !(0..=24).contains(&h) || !(0..=59).contains(&m) || s.is_nan() || !(-0.000_000_6..=60.000_000_6).contains(&s) {
        return Result::Err(());
    }
    let us: Vec<i64> = us_of(s).into_iter().map(|x| x.clamp(0, 60 * SEC)).collect();
    if h == 24 && (m > 0 || us.iter().all(|x| *x > 0)) {
        return Result::Err(());
    }
    let edge = s < 0.0 || s > 60.0 || (h == 24 && s != 0.0);
    Ok((!edge, us.into_iter().map(|x| h * HOUR + m * MIN + x).filter(|t| *t <= DAY).collect()))
}
fn pick(sure: bool, v: Vec<Out>) -> Want {
    if v.is_empty() {
        return Err;
    }
    let w = if v.len() == 1 { Is(v.into_iter().next().unwrap()) } else { OneOf(v) };
    if sure {
        w
    } else {
        ErrOr(Box::new(w))
    }
}

// ---- intervals -----------------------------------------------------------------------------
/// a + b with both written in the same sign: the one way to write `lo + hi*n` so
fn carry(lo: i128, hi: i128, n: i128) -> (i128, i128) {
    let all = hi * n + lo;
    (all % n, all / n)
}
fn trunc(x: f64) -> f64 {
    x.trunc()
}
fn scale(v: (i64, i64, i64), f: f64, div: bool) -> Want {
    let by = |x: f64| if div { x / f } else { x * f };
    if div && f == 0.0 {
        return Err;
    }
    let (pm, pd) = (by(v.2 as f64), by(v.1 as f64));
    let lim = i32::MAX as f64;
    for p in [pm, pd] {
        if p.is_nan() || p > lim || p < -lim - 1.0 {
            return Err;
        }
    }
    let round = |x: f64| (x * 1e6).round() / 1e6;
    let (m, d) = (trunc(pm), trunc(pd));
    let md = round((pm - m) * 30.0);
    let rest = round((pd - d + md - trunc(md)) * 86400.0);
    // where the last bit of an intermediate result decides whether a whole day is made
    let near = |x: f64| (x - x.round()).abs() < 1e-4 && x.round() != 0.0 && x != x.round();
    let split = near(md) || near(rest / 86400.0);
    let time = by(v.0 as f64);
    if time.is_nan() {
        return Any;
    }
    let whole = d as i128 + trunc(md) as i128 + trunc(rest / 86400.0) as i128;
    let rest = rest - trunc(rest / 86400.0) * 86400.0;
    let us = time + rest * 1e6;
    let edge = 9.223_372_036_854_77e18;
    if us.abs() > edge * 1.000_001 {
        return Err;
    }
    let tol = 4 + (us.abs() * 1e-14) as i128;
    let w = NearIv {
        m: m as i64,
        d: if split { None } else { Some(whole as i64) },
        us: whole * DAY as i128 + us as i128,
        tol,
    };
    if !i32ok(whole + 2) || !i32ok(whole - 2) || us.abs() >= edge {
        return if i32ok(whole) || us.abs() >= edge { ErrOr(Box::new(w)) } else { Err };
    }
    w
}
fn iv_part(v: (i64, i64, i64), ft: u8, unit: u8) -> Want {
    let (t, d, m) = v;
    if ft == 1 {
        if unit != u::EPOCH {
            return Err;
        }
        let big = (t as f64 / 1e6).abs().max(d.abs() as f64 * 86400.0).max(m.abs() as f64 * 2_629_800.0);
        let exact = t as f64 / 1e6 + d as f64 * 86400.0 + (m / 12) as f64 * 31_557_600.0 + (m % 12) as f64 * 2_592_000.0;
        return Near2(exact, big * 1e-14);
    }
    let w = match unit {
        u::SECOND | u::MILLISEC | u::MICROSEC => secs(t % MIN, unit),
        u::MINUTE => ints(t / MIN % 60),
        u::HOUR => ints(t / HOUR),
        u::DAY => ints(d),
        u::MONTH => ints(m % 12),
        u::QUARTER => ints(m % 12 / 3 + 1),
        u::YEAR => ints(m / 12),
        u::DECADE => ints(m / 120),
        u::CENTURY => ints(m / 1200),
        u::MILLENNIUM => ints(m / 12000),
        _ => return Err,
    };
    if hours_ok(t) {
        w
    } else {
        ErrOr(Box::new(w))
    }
}
#[allow(non_snake_case)]
fn Near2(x: f64, abs: f64) -> Want {
    // an absolute tolerance, as a relative one
    Near(x, if x == 0.0 { abs } else { abs / x.abs() })
}
fn iv_trunc(v: (i64, i64, i64), ft: u8, unit: u8) -> Want {
    let (t, d, m) = v;
    if ft == 1 {
        return Err;
    }
    let w = match unit {
        u::MICROSEC => (t, d, m),
        u::MILLISEC => (t - t % 1000, d, m),
        u::SECOND => (t - t % SEC, d, m),
        u::MINUTE => (t - t % MIN, d, m),
        u::HOUR => (t - t % HOUR, d, m),
        u::DAY => (0, d, m),
        u::MONTH => (0, 0, m),
        u::QUARTER => (0, 0, m - m % 3),
        u::YEAR => (0, 0, m - m % 12),
        u::DECADE => (0, 0, m - m % 120),
        u::CENTURY => (0, 0, m - m % 1200),
        u::MILLENNIUM => (0, 0, m - m % 12000),
        _ => return Err,
    };
    let w = Is(Out::I(w.0, w.1, w.2));
    if hours_ok(t) {
        w
    } else {
        ErrOr(Box::new(w))
    }
}

/// What the call has to return. Operands are valid values.
pub fn want(o: &Op) -> Want {
    let n = |i: usize| o.n.get(i).copied().unwrap_or(0);
    let i = |i: usize| n(i) as i32 as i64;
    let f = |i: usize| f64::from_bits(n(i) as u64);
    let e = |i: usize| o.e.get(i).copied().unwrap_or(0);
    let v = |k: usize| (n(k), n(k + 1) as i32 as i64, n(k + 2) as i32 as i64);
    let (ft, unit) = (e(0) % 2, e(1) % 23);
    match o.k {
        K::DateYmd => {
            let (y, m, d) = (i(0), i(1), i(2));
            if y == 0 || y == i32::MIN as i64 || !(1..=12).contains(&m) || d < 1 || d > dim(astro(y), m) {
                return Err;
            }
            dw(day(astro(y), m, d))
        }
        K::DateAddDays | K::DateSubDays => {
            if dinf(i(0)) {
                return is(Out::D(i(0)));
            }
            dw(if o.k == K::DateAddDays { i(0) + i(1) } else { i(0) - i(1) })
        }
        K::DateSubDate => {
            if dinf(i(0)) || dinf(i(1)) {
                return Err;
            }
            let x = i(0) - i(1);
            maybe(i32ok(x as i128), Out::I32(x))
        }
        K::DateAddIv => day_ts(i(0)).map_or(Err, |s| shift(s, wide(v(1)))),
        K::DateSubIv => day_ts(i(0)).map_or(Err, |s| unshift(s, v(1))),
        K::DateAddTime => day_ts(i(0)).map_or(Err, |s| shift(s, (n(1) as i128, 0, 0))),
        K::DateFmt => texts(date_texts(i(0), e(0), e(1))),
        K::DateFromTs => match n(0) {
            TINF => is(Out::D(DINF)),
            TNINF => is(Out::D(DNINF)),
            t => dw(t.div_euclid(DAY)),
        },
        K::DatePart => match day_ts(i(0)) {
            Some(s) => part(s, ft, unit),
            // days past the last timestamp
            None if ft == 1 => Any,
            None => {
                // fields of a day do not need a timestamp, but the library may go through one
                Any
            }
        },
        K::DateTrunc => match day_ts(i(0)) {
            Some(s) => match trunc_ts(s, ft, unit) {
                Is(Out::S(t)) if tinf(t) => is(Out::D(if t == TINF { DINF } else { DNINF })),
                Is(Out::S(t)) => is(Out::D(t.div_euclid(DAY))),
                w => w,
            },
            None => Any,
        },
        K::DateFinite => {
            let x = dinf(i(0));
            is(Out::U64s(vec![!x as u64, x as u64]))
        }
        K::DateCmp => cmp(i(0), i(1)),
        K::DateCmpTs => is(Out::I32(i(0))),
        K::TimeHms => match hms(i(0), i(1), f(2)) {
            Ok((sure, t)) => pick(sure, t.into_iter().map(Out::T).collect()),
            _ => Err,
        },
        K::TimeFmt => is(Out::Str(clock(n(0)))),
        K::TimeAddIv => is(Out::T((n(0) as i128 + n(1) as i128).rem_euclid(DAY as i128) as i64)),
        K::TimeSubIv => is(Out::T((n(0) as i128 - n(1) as i128).rem_euclid(DAY as i128) as i64)),
        K::TimeSubTime => is(Out::I(n(0) - n(1), 0, 0)),
        K::TimeFromTs => is(Out::OT(if tinf(n(0)) { None } else { Some(n(0).rem_euclid(DAY)) })),
        K::TimeFromIv => is(Out::T(n(0).rem_euclid(DAY))),
        K::TimePart => match (ft, unit) {
            (1, u::EPOCH) => Near(n(0) as f64 / 1e6, 1e-12),
            (1, _) => Err,
            (_, u::SECOND | u::MILLISEC | u::MICROSEC) => secs(n(0) % MIN, unit),
            (_, u::MINUTE) => ints(n(0) / MIN % 60),
            (_, u::HOUR) => ints(n(0) / HOUR),
            _ => Err,
        },
        K::TimeTrunc => {
            // the end of the day may be given as its beginning
            let to = |x: i64| {
                if n(0) == DAY {
                    OneOf(vec![Out::T(0), Out::T(DAY)])
                } else {
                    is(Out::T(n(0) - n(0) % x))
                }
            };
            match (ft, unit) {
                (1, _) => Err,
                (_, u::MICROSEC) => to(1),
                (_, u::MILLISEC) => to(1000),
                (_, u::SECOND) => to(SEC),
                (_, u::MINUTE) => to(MIN),
                (_, u::HOUR) => to(HOUR),
                (_, u::DAY | u::MONTH | u::QUARTER | u::YEAR | u::DECADE | u::CENTURY | u::MILLENNIUM) => to(DAY),
                _ => Err,
            }
        }
        K::TimeCmp => cmp(n(0), n(1)),
        K::TsYmdHms => {
            let (y, m, d) = (i(0), i(1), i(2));
            if y < 0 {
                return Any;
            }
            if y == 0 || !(1..=12).contains(&m) || d < 1 || d > dim(y, m) {
                return Err;
            }
            match hms(i(3), i(4), f(5)) {
                Ok((sure, t)) => {
                    let b = day(y, m, d) as i128 * DAY as i128;
                    let c: Vec<i128> = t.into_iter().map(|t| b + t as i128).collect();
                    let g: Vec<Out> = c.iter().filter(|t| tfin(**t)).map(|t| Out::S(*t as i64)).collect();
                    let sure = sure && g.len() == c.len();
                    pick(sure, g)
                }
                _ => Err,
            }
        }
        K::TsFmt => texts(ts_texts(n(0), e(0), e(1))),
        K::TsAddIv => shift(n(0), wide(v(1))),
        K::TsSubIv => unshift(n(0), v(1)),
        K::TsAddTime => shift(n(0), (n(1) as i128, 0, 0)),
        K::TsSubTime => shift(n(0), (-n(1) as i128, 0, 0)),
        K::TsSubDate => day_ts(i(1)).map_or(Err, |s| diff(n(0), s)),
        K::TsSubTs => diff(n(0), n(1)),
        K::TsAge => age(n(0), n(1)),
        K::TsFromDate => day_ts(i(0)).map_or(Err, |s| is(Out::S(s))),
        K::TsPart => part(n(0), ft, unit),
        K::TsTrunc => trunc_ts(n(0), ft, unit),
        K::TsFinite => {
            let x = tinf(n(0));
            is(Out::U64s(vec![!x as u64, x as u64]))
        }
        K::TsCmp => cmp(n(0), n(1)),
        K::IvYmwdHms => {
            let m = i(0) as i128 * 12 + i(1) as i128;
            let d = i(2) as i128 * 7 + i(3) as i128;
            let s = f(6);
            if !i32ok(m) || !i32ok(i(0) as i128 * 12) || !i32ok(d) || !i32ok(i(2) as i128 * 7) || !(s.abs() < 1e11) {
                return Any;
            }
            let b = i(4) as i128 * HOUR as i128 + i(5) as i128 * MIN as i128;
            if !i64ok(b + 200_000_000_000_000_000) || !i64ok(b - 200_000_000_000_000_000) {
                return Any;
            }
            // the more seconds, the coarser they are
            let mut c: Vec<Out> = us_of(s).into_iter().map(|x| Out::I((b + x as i128) as i64, d as i64, m as i64)).collect();
            if s.abs() > 1e9 {
                for k in [-2, -1, 0, 1, 2] {
                    c.push(Out::I((b + (s * 1e6) as i128 + k) as i64, d as i64, m as i64));
                }
            }
            pick(true, c)
        }
        K::IvFmt => match iv_text(v(0), e(0)) {
            Some(s) => is(Out::Str(s)),
            None => Err,
        },
        K::IvAdd | K::IvPlus => {
            let (a, b) = (wide(v(0)), wide(v(3)));
            match ivw(a.0 + b.0, a.1 + b.1, a.2 + b.2) {
                Err if o.k == K::IvPlus => Any,
                w => w,
            }
        }
        K::IvSub => {
            let (a, b) = (wide(v(0)), wide(v(3)));
            ivw(a.0 - b.0, a.1 - b.1, a.2 - b.2)
        }
        K::IvNeg => match neg(v(0)) {
            Some(x) => ivw(x.0, x.1, x.2),
            None => Err,
        },
        K::IvJHours => {
            let (a, b, c) = wide(v(0));
            let (t, d) = carry(a, b, DAY as i128);
            some(ivw(t, d, c))
        }
        K::IvJDays => {
            let (a, b, c) = wide(v(0));
            let (d, m) = carry(b, c, 30);
            some(ivw(a, d, m))
        }
        K::IvJIv => {
            let (a, b, c) = wide(v(0));
            let (t, d) = carry(a, b + c * 30, DAY as i128);
            let (d, m) = (d % 30, d / 30);
            // a plan that carries step by step may have to give up earlier
            let (_, d1) = carry(a, b, DAY as i128);
            if !i32ok(d1 + c.signum() * 30) || !i32ok(d1 - c.signum() * 30) || !i32ok(b + a / DAY as i128) || !i32ok(c + b / 30) || !i32ok(c + d1 / 30) {
                return Any;
            }
            some(ivw(t, d, m))
        }
        K::IvMul => scale(v(0), f(3), false),
        K::IvDiv => scale(v(0), f(3), true),
        K::IvCmp => cmp(measure(v(0)), measure(v(3))),
        K::IvToI128 => is(Out::I128(measure(v(0)))),
        K::IvFromTime => is(Out::I(n(0), 0, 0)),
        K::IvPart => iv_part(v(0), ft, unit),
        K::IvTrunc => iv_trunc(v(0), ft, unit),
        K::DateUnbin => is(Out::D(i(0))),
        K::TimeUnbin => is(Out::T(n(0))),
        K::TsUnbin => is(Out::S(n(0))),
        K::IvUnbin => {
            let v = v(0);
            is(Out::I(v.0, v.1, v.2))
        }
        _ => Any,
    }
}
/// justification has no way to report an overflow
fn some(w: Want) -> Want {
    if w == Err {
        Any
    } else {
        w
    }
}

pub fn iv_parts(v: &adapter::Interval) -> (i64, i64, i64) {
    let b = bincode::serialize(v).unwrap_or_default();
    if b.len() != 16 {
        return (i64::MIN, 0x7777, 0x7777);
    }
    let p = |r: std::ops::Range<usize>| i32::from_le_bytes(b[r].try_into().unwrap()) as i64;
    (i64::from_le_bytes(b[..8].try_into().unwrap()), p(8..12), p(12..16))
}
/// None: an error
pub fn out(r: &Res) -> Option<Out> {
    Some(match r {
        Res::I32(x) => Out::I32(*x as i64),
        Res::I128(x) => Out::I128(*x),
        Res::U64s(x) => Out::U64s(x.clone()),
        Res::F(x) => Out::F(*x),
        Res::Date(d) => Out::D(i32::from(*d) as i64),
        Res::Time(t) => Out::T(i64::from(*t)),
        Res::OptTime(t) => Out::OT(t.map(i64::from)),
        Res::Ts(t) => Out::S(i64::from(*t)),
        Res::Iv(v) => {
            let p = iv_parts(v);
            Out::I(p.0, p.1, p.2)
        }
        Res::S(s) => Out::Str(String::from_utf8_lossy(s.as_bytes()).into_owned()),
        Res::Bool(b) => Out::U64s(vec![*b as u64]),
        Res::B(b) => Out::Str(format!("{b:?}")),
        Res::Err(_) | Res::SErr(_) => return None,
    })
}
/// a value outside the range of its type
pub fn out_of_range(o: &Out) -> bool {
    match o {
        Out::D(d) => !dinf(*d) && !dfin(*d),
        Out::T(t) | Out::OT(Some(t)) => !(0..=DAY).contains(t),
        Out::S(t) => !tinf(*t) && !tfin(*t as i128),
        _ => false,
    }
}
pub fn ok(w: &Want, o: &Option<Out>) -> bool {
    match (w, o) {
        (Any, _) => true,
        (Err, o) => o.is_none(),
        (ErrOr(_), None) => true,
        (ErrOr(w), o) => ok(w, o),
        (Is(Out::F(a)), Some(Out::F(b))) => a == b,
        (Is(a), Some(b)) => a == b,
        (OneOf(v), Some(b)) => v.contains(b),
        (Near(a, tol), Some(Out::F(b))) => (a - b).abs() <= tol * a.abs().max(if *tol > 0.0 && *a == 0.0 { 1.0 } else { 0.0 }),
        (NearIv { m, d: days, us, tol }, Some(Out::I(t, d, mo))) => {
            m == mo && days.is_none_or(|x| x == *d) && ((*d as i128 * DAY as i128 + *t as i128) - us).abs() <= *tol
        }
        (Cmp(c), Some(Out::U64s(v))) => {
            let c64 = *c as i64 as u64;
            let same = *c == std::cmp::Ordering::Equal;
            v.len() == 5 && v[0] == same as u64 && v[1] == c64 && v[2] == c64 && (!same || v[3] == v[4])
        }
        _ => false,
    }
}
/// the one value a register takes on, if the reference is sure of it
pub fn value(w: &Want) -> Option<&Out> {
    match w {
        Is(o) => Some(o),
        _ => None,
    }
}
