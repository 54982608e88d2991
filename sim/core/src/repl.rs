//! A replicated register machine over the library's values. A sequencer puts commands in order and
//! ships them, their operands encoded by the real code, over a network that loses, repeats, delays
//! and reorders; replicas log, apply, snapshot, crash and catch up. Every reply of every replica is
//! checked against the executable reference model as it is made, and so are the registers a replica
//! ends up with, however it came by them.
use crate::exec::{count, sim, violation};
use crate::hooks::Ctx;
use crate::model::{self, Out, Want};
use adapter::iofmt::{self, Fmt, Ty, Val};
use adapter::{iv, Date, Op, Res, Time, Timestamp, K};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Slot {
    D,
    T,
    S,
    I,
    /// plain integers (floats as bits)
    N(u8),
}
use Slot::*;
/// what a call takes, in the order of its integer arguments
pub fn sig(k: K) -> &'static [Slot] {
    match k {
        K::DateYmd => &[N(3)],
        K::DateAddDays | K::DateSubDays => &[D, N(1)],
        K::DateSubDate | K::DateCmp => &[D, D],
        K::DateAddIv | K::DateSubIv => &[D, I],
        K::DateAddTime => &[D, T],
        K::DateFmt | K::DatePart | K::DateTrunc | K::DateFinite | K::DateCmpTs | K::TsFromDate | K::DateUnbin => &[D],
        K::DateFromTs | K::TimeFromTs | K::TsFmt | K::TsPart | K::TsTrunc | K::TsFinite | K::TsUnbin => &[S],
        K::TimeHms => &[N(3)],
        K::TimeFmt | K::TimePart | K::TimeTrunc | K::IvFromTime | K::TimeUnbin => &[T],
        K::TimeAddIv | K::TimeSubIv => &[T, I],
        K::TimeSubTime | K::TimeCmp => &[T, T],
        K::TimeFromIv | K::IvFmt | K::IvNeg | K::IvJHours | K::IvJDays | K::IvJIv | K::IvToI128 | K::IvPart | K::IvTrunc
        | K::IvUnbin => &[I],
        K::TsYmdHms => &[N(6)],
        K::TsAddIv | K::TsSubIv => &[S, I],
        K::TsAddTime | K::TsSubTime => &[S, T],
        K::TsSubDate => &[S, D],
        K::TsSubTs | K::TsAge | K::TsCmp => &[S, S],
        K::IvYmwdHms => &[N(7)],
        K::IvAdd | K::IvSub | K::IvCmp | K::IvPlus => &[I, I],
        K::IvMul | K::IvDiv => &[I, N(1)],
        K::TimeParse | K::TsParse | K::IvParse => &[N(1)],
        _ => &[],
    }
}
/// how operands travel and snapshots are kept
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Wire {
    Fmt(Fmt),
    Text { style: u8, order: u8, iv: u8 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Arg {
    /// a register of the slot's type
    R(u8),
    /// a literal, sent along
    L(Vec<i64>),
    /// the sequencer's clock (timestamps)
    Now,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cmd {
    pub k: K,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub s: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub e: Vec<u8>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub a: Vec<Arg>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dst: Option<u8>,
    /// for texts: the value they spell; empty: not a value
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub want: Option<Vec<i64>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ev {
    /// the sequencer takes the next command and sends it to everyone
    Next,
    Deliver(u32),
    Drop(u32),
    Dup(u32),
    /// the node dies; this many bytes of what it had not synced reached the disk
    Crash(u8, u32),
    Restart(u8),
    Snap(u8),
    Sync(u8),
    Cut(u8),
    Heal(u8),
    /// the node asks for everything it lacks
    Resend(u8),
    /// the sequencer's clock jumps
    Jump(i64),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    pub nodes: u8,
    pub wire: Wire,
    #[serde(default)]
    pub now: i64,
    pub cmds: Vec<Cmd>,
    pub evs: Vec<Ev>,
}

type Regs = [[Vec<i64>; 4]; 4];
fn blank() -> Regs {
    let one = || [vec![0i64], vec![0], vec![0], vec![0]];
    [one(), one(), one(), [vec![0, 0, 0], vec![0, 0, 0], vec![0, 0, 0], vec![0, 0, 0]]]
}
fn bank(s: Slot) -> usize {
    match s {
        D => 0,
        T => 1,
        S => 2,
        _ => 3,
    }
}
const TYS: [Ty; 4] = [Ty::Date, Ty::Time, Ty::Ts, Ty::Iv];
fn val(b: usize, n: &[i64]) -> Val {
    match b {
        0 => Val::Date(Date::from(n[0] as i32)),
        1 => Val::Time(Time::from(n[0])),
        2 => Val::Ts(Timestamp::from(n[0])),
        _ => Val::Iv(iv(n[0], n[1], n[2])),
    }
}
fn ints(v: &Val) -> Vec<i64> {
    match v {
        Val::Date(d) => vec![i32::from(*d) as i64],
        Val::Time(t) => vec![i64::from(*t)],
        Val::Ts(t) => vec![i64::from(*t)],
        Val::Iv(v) => {
            let p = model::iv_parts(v);
            vec![p.0, p.1, p.2]
        }
        _ => vec![],
    }
}
fn res_ints(r: &Res) -> Option<Vec<i64>> {
    match r {
        Res::Date(d) => Some(ints(&Val::Date(*d))),
        Res::Time(d) => Some(ints(&Val::Time(*d))),
        Res::Ts(d) => Some(ints(&Val::Ts(*d))),
        Res::Iv(d) => Some(ints(&Val::Iv(*d))),
        _ => None,
    }
}
fn out_reg(o: &Out) -> Option<(usize, Vec<i64>)> {
    match o {
        Out::D(d) => Some((0, vec![*d])),
        Out::T(d) => Some((1, vec![*d])),
        Out::S(d) => Some((2, vec![*d])),
        Out::I(t, d, m) => Some((3, vec![*t, *d, *m])),
        _ => None,
    }
}
pub fn show_val(b: usize, n: &[i64]) -> String {
    match b {
        0 => format!("date {} ({})", n[0], model::date_texts(n[0], 1, 0)[0]),
        1 => format!("time {} ({})", n[0], model::clock(n[0])),
        2 => format!("timestamp {} ({})", n[0], model::ts_texts(n[0], 1, 0)[0]),
        _ => format!("interval of {} us, {} days, {} months", n[0], n[1], n[2]),
    }
}

/// has a part that cannot change its sign
fn least(n: &[i64]) -> bool {
    n[0] == i64::MIN || n[1] == i32::MIN as i64 || n[2] / 12 == i32::MIN as i64 / 12
}

pub struct World<'a> {
    pub c: *mut Ctx,
    pub stack: u64,
    pub me: usize,
    pub i: usize,
    pub log: &'a mut dyn FnMut(&str),
    /// only ranges and errors are looked at
    pub lax: bool,
    pub text: Vec<u8>,
}
impl World<'_> {
    fn bad(&self, class: &str, d: String) {
        violation(class, d, self.me, self.i)
    }
    pub fn exec(&mut self, op: &Op) -> Result<Res, String> {
        // the text argument always lives at the same address
        self.text.clear();
        self.text.extend_from_slice(op.s.as_bytes());
        let s = std::str::from_utf8(&self.text).unwrap();
        count("calls", 1);
        sim(self.c, self.stack, || adapter::exec(op, s))
    }
    /// Some(None): refused, as the reference says it must be
    fn encode(&mut self, w: Wire, b: usize, n: &[i64]) -> Option<Option<Vec<u8>>> {
        let what = || show_val(b, n);
        let refuse = b == 3 && !model::hours_ok(n[0]);
        match w {
            Wire::Fmt(f) => {
                let v = val(b, n);
                let r = sim(self.c, self.stack, || {
                    let mut o = vec![];
                    iofmt::encode(f, &v, &mut o).map(|_| o)
                });
                match r {
                    Err(p) => self.bad("panic", format!("encoding {} as {f:?} panicked: {p}", what())),
                    Ok(Ok(x)) => return Some(Some(x)),
                    Ok(Err(_)) if refuse && f.human() => return Some(None),
                    Ok(Err(e)) => self.bad("refused", format!("encoding {} as {f:?} failed: {e}", what())),
                }
                None
            }
            Wire::Text { style, order, iv } => {
                let (k, e) = match b {
                    0 => (K::DateFmt, vec![style, order]),
                    1 => (K::TimeFmt, vec![style]),
                    2 => (K::TsFmt, vec![style, order]),
                    _ => (K::IvFmt, vec![iv]),
                };
                let op = Op { k, s: String::new(), n: n.to_vec(), e };
                let r = self.exec(&op);
                count("texts_written", 1);
                match r {
                    Err(p) => self.bad("panic", format!("formatting {} ({:?}) panicked: {p}", what(), op.e)),
                    Ok(Res::S(s)) => {
                        (self.log)(&s);
                        let w = model::want(&op);
                        let o = Some(Out::Str(String::from_utf8_lossy(s.as_bytes()).into_owned()));
                        if !model::ok(&w, &o) {
                            let how = format!("{:?}, {:?}, {:?}", adapter::style(style), adapter::order(order), adapter::istyle(iv));
                            self.bad("wrong-text", format!("{} in style {how} is {s:?}, should be {}", what(), show_want(&w)));
                            return None;
                        }
                        return Some(Some(s.into_bytes()));
                    }
                    Ok(_) if refuse => return Some(None),
                    Ok(r) => self.bad("refused", format!("formatting {} failed: {r:?}", what())),
                }
                None
            }
        }
    }
    fn decode(&mut self, w: Wire, b: usize, bytes: &[u8], n: &[i64]) -> bool {
        let got = match w {
            Wire::Fmt(f) => {
                match sim(self.c, self.stack, || iofmt::decode_slice(f, TYS[b], bytes)) {
                    Err(p) => Err(format!("panicked: {p}")),
                    Ok(Ok(v)) => Ok(ints(&v)),
                    Ok(Err(e)) => Err(format!("failed: {e}")),
                }
            }
            Wire::Text { order, iv, .. } => {
                let s = String::from_utf8_lossy(bytes).into_owned();
                let op = match b {
                    0 => Op { k: K::DateParse, s, n: vec![], e: vec![order] },
                    1 => Op { k: K::TimeParse, s, n: vec![-1], e: vec![order] },
                    2 => Op { k: K::TsParse, s, n: vec![-1], e: vec![order] },
                    _ => Op { k: K::IvParse, s, n: vec![-1], e: vec![iv] },
                };
                match self.exec(&op) {
                    Err(p) => Err(format!("panicked: {p}")),
                    Ok(Res::Err(e)) => Err(format!("failed: {e:?}")),
                    Ok(r) => Ok(res_ints(&r).unwrap_or_default()),
                }
            }
        };
        count("values_read", 1);
        let shown = || match w {
            Wire::Fmt(f) if !f.human() => format!("{bytes:?} ({f:?})"),
            Wire::Fmt(f) => format!("{:?} ({f:?})", String::from_utf8_lossy(bytes)),
            Wire::Text { style, order, iv } => format!(
                "{:?} ({:?}, {:?}, {:?})",
                String::from_utf8_lossy(bytes),
                adapter::style(style),
                adapter::order(order),
                adapter::istyle(iv)
            ),
        };
        match got {
            Ok(g) if g == n => true,
            Ok(g) => {
                let g = if g.len() == n.len() { show_val(b, &g) } else { format!("{g:?}") };
                self.bad("not-read-back", format!("{}, written as {}, is read back as {g}", show_val(b, n), shown()));
                false
            }
            // "2147483648 days ago": the number is not one of its own sign
            Err(_) if matches!(w, Wire::Text { iv: 1 | 2, .. }) && b == 3 && least(n) => {
                count("texts_of_the_least", 1);
                true
            }
            Err(e) => {
                self.bad("not-read-back", format!("reading {}, written as {}, {e}", show_val(b, n), shown()));
                false
            }
        }
    }
    /// makes the call and holds the reply against the reference; false: stop the run
    fn judge(&mut self, op: &Op, want: &Want, node: usize, seq: usize) -> bool {
        let r = self.exec(op);
        let at = format!("command {seq} on node {node}: {}", crate::exec::show_op(op));
        match r {
            Err(p) => {
                (self.log)("panic");
                self.bad("panic", format!("{at} panicked: {p}"));
                false
            }
            Ok(r) => {
                let o = model::out(&r);
                if let Some(x) = &o {
                    if model::out_of_range(x) {
                        self.bad("out-of-range", format!("{at} returned {}, out of range", show_out(x)));
                        return false;
                    }
                }
                let fine = if self.lax {
                    match (want, &o) {
                        (Want::Err, Some(_)) => false,
                        (Want::Is(_) | Want::OneOf(_) | Want::Near(..) | Want::NearIv { .. } | Want::Cmp(_), None) => false,
                        _ => true,
                    }
                } else {
                    model::ok(want, &o)
                };
                let got = match (&r, &o) {
                    (_, Some(x)) => show_out(x),
                    (Res::Err(e), _) => format!("Err({e} | {e:?})"),
                    (r, _) => format!("{r:?}"),
                };
                (self.log)(&got);
                match want {
                    Want::Any => count("replies_unjudged", 1),
                    Want::Err => count("replies_refused", 1),
                    _ => count("replies_judged", 1),
                }
                if !fine {
                    let class = match (want, &o) {
                        (Want::Err, Some(_)) => "not-refused",
                        (_, None) => "refused",
                        _ => "wrong-result",
                    };
                    self.bad(class, format!("{at} returned {got}, should be {}", show_want(want)));
                    return false;
                }
                true
            }
        }
    }
}
pub fn show_out(o: &Out) -> String {
    match out_reg(o) {
        Some((b, n)) if !model::out_of_range(o) => show_val(b, &n),
        _ => format!("{o:?}"),
    }
}
fn show_want(w: &Want) -> String {
    match w {
        Want::Is(o) => show_out(o),
        Want::Err => "an error".into(),
        Want::Near(x, t) if *t == 0.0 => format!("{x:?}"),
        Want::Near(x, _) => format!("about {x:?}"),
        Want::NearIv { m, d, us, .. } => match d {
            Some(d) => format!("{m} months, {d} days and about {} us", us - *d as i128 * 86_400_000_000),
            None => format!("{m} months and about {us} us"),
        },
        Want::OneOf(v) => v.iter().map(show_out).collect::<Vec<_>>().join(" or "),
        Want::ErrOr(w) => format!("an error or {}", show_want(w)),
        Want::Cmp(c) => format!("{c:?} in every respect, with equal hashes if equal"),
        Want::Any => "anything".into(),
    }
}

/// a command in its place in the order
struct Entry {
    k: K,
    s: String,
    e: Vec<u8>,
    a: Vec<EArg>,
    dst: Option<u8>,
    want: Want,
    /// what it leaves in its register
    set: Option<(usize, Vec<i64>)>,
    after: Regs,
}
enum EArg {
    R(usize, usize),
    L(usize, Vec<u8>, Vec<i64>),
    N(Vec<i64>),
}
#[derive(Clone)]
struct Snap {
    next: usize,
    /// bank, register, bytes
    regs: Vec<(usize, usize, Wire, Vec<u8>)>,
}
struct Node {
    up: bool,
    cut: bool,
    next: usize,
    regs: Regs,
    buf: BTreeMap<usize, ()>,
    /// log on disk: frames of (sequence number, length), synced and not
    wal: Vec<u8>,
    pending: Vec<u8>,
    snap: Option<Snap>,
    snap_pending: Option<Snap>,
}
impl Node {
    fn new() -> Node {
        Node {
            up: true,
            cut: false,
            next: 0,
            regs: blank(),
            buf: BTreeMap::new(),
            wal: vec![],
            pending: vec![],
            snap: None,
            snap_pending: None,
        }
    }
}
fn frame(seq: usize, e: &Entry) -> Vec<u8> {
    let mut p = vec![];
    p.extend_from_slice(&(seq as u32).to_le_bytes());
    for a in &e.a {
        if let EArg::L(_, b, _) = a {
            p.extend_from_slice(b);
        }
    }
    p.extend_from_slice(e.s.as_bytes());
    let mut f = (p.len() as u32).to_le_bytes().to_vec();
    f.extend(p);
    f
}
fn frames(b: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i + 8 <= b.len() {
        let n = u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        if i + 4 + n > b.len() {
            break;
        }
        v.push(u32::from_le_bytes(b[i + 4..i + 8].try_into().unwrap()) as usize);
        i += 4 + n;
    }
    v
}

/// the register operands a command reads, and the reference's answer
fn resolve(cmd: &Cmd, regs: &Regs, now: i64) -> Option<(Op, Vec<(usize, Option<usize>, Vec<i64>)>)> {
    let mut n = vec![];
    let mut parts = vec![];
    for (j, s) in sig(cmd.k).iter().enumerate() {
        let a = cmd.a.get(j)?;
        let (want_len, b) = match s {
            N(k) => (*k as usize, 9),
            I => (3, 3),
            s => (1, bank(*s)),
        };
        let (x, r) = match a {
            Arg::R(r) if b < 4 => (regs[b][*r as usize % 4].clone(), Some(*r as usize % 4)),
            Arg::Now if b == 2 => (vec![now], None),
            Arg::L(v) => (v.clone(), None),
            _ => return None,
        };
        if x.len() != want_len || (b < 4 && !valid(b, &x)) {
            return None;
        }
        n.extend(x.iter().copied());
        parts.push((b, r, x));
    }
    Some((Op { k: cmd.k, s: cmd.s.clone(), n, e: cmd.e.clone() }, parts))
}
pub fn valid(b: usize, n: &[i64]) -> bool {
    match b {
        0 => !model::out_of_range(&Out::D(n[0])),
        1 => !model::out_of_range(&Out::T(n[0])),
        2 => !model::out_of_range(&Out::S(n[0])),
        _ => n[1..].iter().all(|x| *x == *x as i32 as i64),
    }
}
fn text_want(cmd: &Cmd) -> Option<Want> {
    let w = cmd.want.as_ref()?;
    if w.is_empty() {
        return Some(Want::Err);
    }
    Some(Want::Is(match cmd.k {
        K::DateParse => Out::D(w[0]),
        K::TimeParse => Out::T(w[0]),
        K::TsParse => Out::S(w[0]),
        _ => Out::I(w[0], *w.get(1)?, *w.get(2)?),
    }))
}

pub fn run(w: &mut World, sp: &Spec) {
    let nn = (sp.nodes.max(1) as usize).min(8);
    let mut nodes: Vec<Node> = (0..nn).map(|_| Node::new()).collect();
    let mut log: Vec<Entry> = vec![];
    let mut state = blank();
    let mut cmds = sp.cmds.iter();
    let mut net: Vec<(usize, usize)> = vec![];
    let mut now = sp.now;
    count("replica_nodes", nn as u64);

    macro_rules! at {
        ($x:expr) => {
            match $x {
                Some(v) => v,
                None => return,
            }
        };
    }
    // one command into the order; false: stop
    macro_rules! next {
        () => {
            if let Some(cmd) = cmds.next() {
                now = now.saturating_add(1_234_567);
                let clock = now.clamp(crate::gen::TS_MIN, crate::gen::TS_END - 1);
                if let Some((op, parts)) = resolve(cmd, &state, clock) {
                    let want = text_want(cmd).unwrap_or_else(|| model::want(&op));
                    let mut a = vec![];
                    // `+` panics where add_interval refuses
                    let mut refused = op.k == K::IvPlus && want == Want::Any;
                    for (b, r, x) in parts {
                        a.push(match (b, r) {
                            (9, _) => EArg::N(x),
                            (b, Some(r)) => EArg::R(b, r),
                            (b, None) => match at!(w.encode(sp.wire, b, &x)) {
                                Some(bytes) => EArg::L(b, bytes, x),
                                None => {
                                    refused = true;
                                    break;
                                }
                            },
                        });
                    }
                    if refused {
                        count("commands_not_expressible", 1);
                    } else {
                        let set = cmd.dst.and_then(|d| {
                            let (b, v) = out_reg(model::value(&want)?)?;
                            let _ = d;
                            Some((b, v))
                        });
                        if let (Some((b, v)), Some(d)) = (&set, cmd.dst) {
                            state[*b][d as usize % 4] = v.clone();
                        }
                        let seq = log.len();
                        log.push(Entry {
                            k: cmd.k,
                            s: cmd.s.clone(),
                            e: cmd.e.clone(),
                            a,
                            dst: cmd.dst,
                            want,
                            set,
                            after: state.clone(),
                        });
                        net.extend((0..nn).map(|t| (t, seq)));
                        count("commands", 1);
                    }
                }
                true
            } else {
                false
            }
        };
    }
    // the node applies one entry; false: stop the run
    fn apply(w: &mut World, sp: &Spec, nodes: &mut [Node], log: &[Entry], t: usize, seq: usize, replay: bool) -> bool {
        let e = &log[seq];
        let mut n = vec![];
        for a in &e.a {
            match a {
                EArg::N(x) => n.extend(x),
                EArg::R(b, r) => n.extend(&nodes[t].regs[*b][*r]),
                EArg::L(b, bytes, x) => {
                    if !w.decode(sp.wire, *b, bytes, x) {
                        return false;
                    }
                    n.extend(x);
                }
            }
        }
        let op = Op { k: e.k, s: e.s.clone(), n, e: e.e.clone() };
        if !w.judge(&op, &e.want, t, seq) {
            return false;
        }
        if let (Some((b, v)), Some(d)) = (&e.set, e.dst) {
            nodes[t].regs[*b][d as usize % 4] = v.clone();
        }
        if !replay {
            let f = frame(seq, e);
            nodes[t].pending.extend(f);
        } else {
            count("replayed_commands", 1);
        }
        nodes[t].next = seq + 1;
        true
    }
    fn arrive(w: &mut World, sp: &Spec, nodes: &mut [Node], log: &[Entry], t: usize, seq: usize) -> bool {
        if !nodes[t].up || nodes[t].cut {
            count("net.lost", 1);
            return true;
        }
        if seq < nodes[t].next || nodes[t].buf.contains_key(&seq) {
            count("net.repeated", 1);
            return true;
        }
        if seq > nodes[t].next {
            count("net.out_of_order", 1);
        }
        nodes[t].buf.insert(seq, ());
        while nodes[t].buf.remove(&nodes[t].next).is_some() {
            let s = nodes[t].next;
            if !apply(w, sp, nodes, log, t, s, false) {
                return false;
            }
        }
        true
    }
    fn restart(w: &mut World, sp: &Spec, nodes: &mut [Node], log: &[Entry], t: usize) -> bool {
        if nodes[t].up {
            return true;
        }
        count("crash.restarts", 1);
        let n = &mut nodes[t];
        n.up = true;
        n.regs = blank();
        n.next = 0;
        n.buf.clear();
        if let Some(s) = n.snap.clone() {
            n.next = s.next;
            let truth = if s.next == 0 { blank() } else { log[s.next - 1].after.clone() };
            for (b, r, wire, bytes) in &s.regs {
                if !w.decode(*wire, *b, bytes, &truth[*b][*r]) {
                    return false;
                }
                nodes[t].regs[*b][*r] = truth[*b][*r].clone();
            }
            count("snapshots_restored", 1);
        }
        let wal = std::mem::take(&mut nodes[t].wal);
        let mut keep = 0;
        for seq in frames(&wal) {
            keep += 4 + u32::from_le_bytes(wal[keep..keep + 4].try_into().unwrap()) as usize;
            if seq < nodes[t].next {
                continue;
            }
            if seq != nodes[t].next {
                break;
            }
            if !apply(w, sp, nodes, log, t, seq, true) {
                return false;
            }
        }
        if keep < wal.len() {
            count("disk.torn_tail_dropped", 1);
        }
        nodes[t].wal = wal[..keep].to_vec();
        true
    }
    for ev in &sp.evs {
        match *ev {
            Ev::Next => {
                next!();
            }
            Ev::Deliver(m) => {
                if !net.is_empty() {
                    let k = m as usize % net.len();
                    let (t, seq) = net.swap_remove(k);
                    if !arrive(w, sp, &mut nodes, &log, t, seq) {
                        return;
                    }
                }
            }
            Ev::Drop(m) => {
                if !net.is_empty() {
                    count("net.dropped", 1);
                    net.swap_remove(m as usize % net.len());
                }
            }
            Ev::Dup(m) => {
                if !net.is_empty() {
                    count("net.duplicated", 1);
                    let x = net[m as usize % net.len()];
                    net.push(x);
                }
            }
            Ev::Crash(t, torn) => {
                let n = &mut nodes[t as usize % nn];
                if n.up {
                    count("crash.node", 1);
                    n.up = false;
                    n.snap_pending = None;
                    let p = std::mem::take(&mut n.pending);
                    let k = torn as usize % (p.len() + 1);
                    if k < p.len() && k > 0 {
                        count("disk.torn_write", 1);
                    }
                    n.wal.extend_from_slice(&p[..k]);
                }
            }
            Ev::Restart(t) => {
                if !restart(w, sp, &mut nodes, &log, t as usize % nn) {
                    return;
                }
            }
            Ev::Snap(t) => {
                let t = t as usize % nn;
                if nodes[t].up {
                    let mut regs = vec![];
                    for b in 0..4 {
                        for r in 0..4 {
                            let x = nodes[t].regs[b][r].clone();
                            let mut wire = sp.wire;
                            if b == 0 && matches!(wire, Wire::Text { style: 0, order: 0, .. }) {
                                // month and day come first there, whatever the order
                                wire = Wire::Fmt(Fmt::Bincode);
                            }
                            let bytes = match at!(w.encode(wire, b, &x)) {
                                Some(y) => y,
                                None => {
                                    // not expressible as text: kept in binary
                                    wire = Wire::Fmt(Fmt::Bincode);
                                    at!(at!(w.encode(wire, b, &x)))
                                }
                            };
                            regs.push((b, r, wire, bytes));
                        }
                    }
                    nodes[t].snap_pending = Some(Snap { next: nodes[t].next, regs });
                    count("snapshots", 1);
                }
            }
            Ev::Sync(t) => {
                let n = &mut nodes[t as usize % nn];
                if n.up {
                    count("disk.fsync", 1);
                    let p = std::mem::take(&mut n.pending);
                    n.wal.extend(p);
                    if let Some(s) = n.snap_pending.take() {
                        n.snap = Some(s);
                        n.wal.clear();
                        // what was applied after the snapshot was taken has to be logged still
                        let from = n.snap.as_ref().unwrap().next;
                        for seq in from..n.next {
                            n.wal.extend(frame(seq, &log[seq]));
                        }
                    }
                }
            }
            Ev::Cut(t) => {
                count("net.partition", 1);
                nodes[t as usize % nn].cut = true
            }
            Ev::Heal(t) => nodes[t as usize % nn].cut = false,
            Ev::Resend(t) => {
                let t = t as usize % nn;
                count("net.resend", 1);
                net.extend((nodes[t].next..log.len()).map(|s| (t, s)));
            }
            Ev::Jump(d) => {
                count("clock.jump", 1);
                now = now.saturating_add(d);
            }
        }
        count("events", 1);
    }
    // faults are over: everybody catches up within a bounded number of rounds
    while next!() {}
    for t in 0..nn {
        nodes[t].cut = false;
        if !restart(w, sp, &mut nodes, &log, t) {
            return;
        }
    }
    for round in 0..3 {
        for (t, seq) in std::mem::take(&mut net) {
            if !arrive(w, sp, &mut nodes, &log, t, seq) {
                return;
            }
        }
        let mut late = false;
        for (t, n) in nodes.iter().enumerate() {
            for s in n.next..log.len() {
                net.push((t, s));
                late = true;
            }
        }
        if !late {
            break;
        }
        if round == 2 {
            w.bad("no-progress", "a replica did not catch up in three rounds after the faults ended".into());
            return;
        }
    }
    let truth = log.last().map(|e| e.after.clone()).unwrap_or_else(blank);
    for (t, n) in nodes.iter().enumerate() {
        if n.regs != truth {
            w.bad("diverged", format!("node {t} ends with {:?}, the reference with {truth:?}", n.regs));
            return;
        }
    }
    if nn > 1 {
        count("replicas_compared", nn as u64);
    }
}

// ---- an index over values ------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ix {
    /// item: added (true) or removed by an update with this stamp, sent to every node
    Put(u32, bool),
    Deliver(u32),
    Drop(u32),
    Dup(u32),
    /// look up what lies between two items, on one node
    Range(u8, u32, u32),
    /// order, equality, hash and extremes of all pairs among the items a node has, directly
    Pairs(u8),
    /// the node loses its memory and rebuilds its index from what it had stored, sorted or not
    Rebuild(u8, bool),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct IxSpec {
    pub nodes: u8,
    pub ty: Ty,
    pub items: Vec<Vec<i64>>,
    pub ops: Vec<Ix>,
}
fn rank(b: usize, n: &[i64]) -> i128 {
    if b == 3 {
        model::measure((n[0], n[1], n[2]))
    } else {
        n[0] as i128
    }
}
pub fn ty_bank(t: Ty) -> usize {
    match t {
        Ty::Date => 0,
        Ty::Time => 1,
        Ty::Ts => 2,
        _ => 3,
    }
}

trait Key: Copy + Ord + std::hash::Hash + std::fmt::Debug {
    fn of(n: &[i64]) -> Self;
}
impl Key for Date {
    fn of(n: &[i64]) -> Self {
        Date::from(n[0] as i32)
    }
}
impl Key for Time {
    fn of(n: &[i64]) -> Self {
        Time::from(n[0])
    }
}
impl Key for Timestamp {
    fn of(n: &[i64]) -> Self {
        Timestamp::from(n[0])
    }
}
impl Key for adapter::Interval {
    fn of(n: &[i64]) -> Self {
        iv(n[0], n[1], n[2])
    }
}
pub fn index(w: &mut World, sp: &IxSpec) {
    match sp.ty {
        Ty::Date => index_of::<Date>(w, sp),
        Ty::Time => index_of::<Time>(w, sp),
        Ty::Ts => index_of::<Timestamp>(w, sp),
        _ => index_of::<adapter::Interval>(w, sp),
    }
}
type Hm<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>;
#[derive(Clone)]
struct INode<Q> {
    /// group of equal keys -> item -> (stamp, present)
    tree: BTreeMap<Q, BTreeMap<u32, (u64, bool)>>,
    hash: Hm<Q, BTreeMap<u32, (u64, bool)>>,
    sorted: Vec<(Q, u32)>,
    /// what the reference says is there
    truth: BTreeMap<u32, (u64, bool)>,
}
fn merge(m: &mut BTreeMap<u32, (u64, bool)>, item: u32, stamp: u64, on: bool) {
    let e = m.entry(item).or_insert((0, false));
    if stamp > e.0 {
        *e = (stamp, on);
    }
}
impl<Q: Key> INode<Q> {
    fn put(&mut self, q: Q, item: u32, stamp: u64, on: bool) {
        merge(self.tree.entry(q).or_default(), item, stamp, on);
        merge(self.hash.entry(q).or_default(), item, stamp, on);
        if !self.truth.contains_key(&item) {
            let at = match self.sorted.binary_search_by(|x| x.0.cmp(&q)) {
                Ok(i) | Err(i) => i,
            };
            self.sorted.insert(at, (q, item));
        }
        merge(&mut self.truth, item, stamp, on);
    }
}
fn index_of<Q: Key>(w: &mut World, sp: &IxSpec) {
    let b = ty_bank(sp.ty);
    let n_items = sp.items.len();
    if n_items == 0 || sp.items.iter().any(|x| x.len() != if b == 3 { 3 } else { 1 } || !valid(b, x)) {
        return;
    }
    let ranks: Vec<i128> = sp.items.iter().map(|x| rank(b, x)).collect();
    let q: Vec<Q> = sp.items.iter().map(|x| Q::of(x)).collect();
    let nn = sp.nodes.max(1) as usize;
    let mut nodes: Vec<INode<Q>> = (0..nn)
        .map(|_| INode { tree: BTreeMap::new(), hash: Hm::default(), sorted: vec![], truth: BTreeMap::new() })
        .collect();
    let mut net: Vec<(usize, u32, u64, bool)> = vec![];
    let mut all: Vec<(u32, u64, bool)> = vec![];
    let show = |i: u32| show_val(b, &sp.items[i as usize]);
    let (c, stack) = (w.c, w.stack);

    // everything the node's containers say, held against the reference
    let check = |w: &mut World, nd: &INode<Q>, t: usize| -> bool {
        let mut groups: BTreeMap<i128, BTreeMap<u32, (u64, bool)>> = BTreeMap::new();
        for (i, s) in &nd.truth {
            groups.entry(ranks[*i as usize]).or_default().insert(*i, *s);
        }
        let want: Vec<_> = groups.values().cloned().collect();
        let r = sim(c, stack, || {
            let tree: Vec<_> = nd.tree.values().cloned().collect();
            let first = nd.tree.keys().next().copied();
            let least = nd.sorted.iter().map(|x| x.0).min();
            let last = nd.tree.keys().next_back().copied();
            let most = nd.sorted.iter().map(|x| x.0).max();
            let ends = first == least && last == most;
            let hash: Vec<Option<BTreeMap<u32, (u64, bool)>>> = q.iter().map(|k| nd.hash.get(k).cloned()).collect();
            let mut v: Vec<(Q, u32)> = nd.sorted.clone();
            let in_order: Vec<u32> = v.iter().map(|x| x.1).collect();
            v.reverse();
            v.sort();
            (tree, ends, hash, nd.hash.len(), in_order, v.into_iter().map(|x| x.1).collect::<Vec<u32>>())
        });
        let (tree, ends, hash, hlen, in_order, sorted) = match r {
            Ok(x) => x,
            Err(p) => {
                w.bad("panic", format!("comparing or hashing panicked: {p}"));
                return false;
            }
        };
        count("index_checks", 1);
        (w.log)(&format!("{tree:?} {sorted:?}"));
        let line = |v: &[u32]| v.iter().map(|i| show(*i)).collect::<Vec<_>>().join("; ");
        if tree != want {
            let got: Vec<Vec<u32>> = tree.iter().map(|g| g.keys().copied().collect()).collect();
            let exp: Vec<Vec<u32>> = want.iter().map(|g| g.keys().copied().collect()).collect();
            let k = (0..got.len().max(exp.len())).find(|k| got.get(*k) != exp.get(*k)).unwrap_or(0);
            let g = |v: &Vec<Vec<u32>>| v.get(k).map(|v| line(v)).unwrap_or_default();
            w.bad("wrong-order", format!("ordered map on node {t}: group {k} is [{}], should be [{}]", g(&got), g(&exp)));
            return false;
        }
        if !ends {
            w.bad("wrong-order", format!("least or greatest key of node {t} differs between ways of asking"));
            return false;
        }
        if hlen != groups.len() {
            w.bad("wrong-hash", format!("hash map on node {t} has {hlen} keys, there are {} different ones", groups.len()));
            return false;
        }
        for (i, h) in hash.iter().enumerate() {
            if h.as_ref() != groups.get(&ranks[i]) {
                w.bad("wrong-hash", format!("hash map on node {t} finds {h:?} under {}, should be {:?}", show(i as u32), groups.get(&ranks[i])));
                return false;
            }
        }
        for v in [&in_order, &sorted] {
            if let Some(p) = v.windows(2).find(|p| ranks[p[0] as usize] > ranks[p[1] as usize]) {
                w.bad("wrong-order", format!("sorted on node {t}: {} comes before {}", show(p[0]), show(p[1])));
                return false;
            }
        }
        true
    };
    let mut stamp = 0u64;
    for op in &sp.ops {
        match *op {
            Ix::Put(i, on) => {
                let i = i % n_items as u32;
                stamp += 1;
                all.push((i, stamp, on));
                net.extend((0..nn).map(|t| (t, i, stamp, on)));
                count("commands", 1);
            }
            Ix::Deliver(m) => {
                if !net.is_empty() {
                    let k = m as usize % net.len();
                    let (t, i, s, on) = net.swap_remove(k);
                    if let Err(p) = sim(c, stack, || nodes[t].put(q[i as usize], i, s, on)) {
                        w.bad("panic", format!("indexing {} panicked: {p}", show(i)));
                        return;
                    }
                    count("calls", 1);
                }
            }
            Ix::Drop(m) => {
                if !net.is_empty() {
                    count("net.dropped", 1);
                    net.swap_remove(m as usize % net.len());
                }
            }
            Ix::Dup(m) => {
                if !net.is_empty() {
                    count("net.duplicated", 1);
                    let x = net[m as usize % net.len()];
                    net.push(x);
                }
            }
            Ix::Range(t, lo, hi) => {
                let nd = &nodes[t as usize % nn];
                let (mut lo, mut hi) = (lo as usize % n_items, hi as usize % n_items);
                if ranks[lo] > ranks[hi] {
                    std::mem::swap(&mut lo, &mut hi);
                }
                let r = sim(c, stack, || {
                    if q[lo] > q[hi] {
                        return None;
                    }
                    let mut v: Vec<u32> = nd.tree.range(q[lo]..=q[hi]).flat_map(|x| x.1.keys().copied()).collect();
                    v.sort_unstable();
                    let mut s: Vec<u32> =
                        nd.sorted.iter().filter(|x| x.0 >= q[lo] && !(x.0 > q[hi])).map(|x| x.1).collect();
                    s.sort_unstable();
                    Some((v, s))
                });
                let want: Vec<u32> =
                    nd.truth.keys().copied().filter(|i| ranks[*i as usize] >= ranks[lo] && ranks[*i as usize] <= ranks[hi]).collect();
                count("range_queries", 1);
                match r {
                    Ok(Some((v, s))) if v == want && s == want => {}
                    Ok(r) => {
                        let f = |v: &Vec<u32>| v.iter().map(|i| show(*i)).collect::<Vec<_>>().join("; ");
                        let got = match &r {
                            None => "refused: the bounds are the wrong way round".to_string(),
                            Some((v, s)) => format!("[{}] and [{}]", f(v), f(s)),
                        };
                        w.bad(
                            "wrong-order",
                            format!("range {} to {} gives {got}, should be [{}]", show(lo as u32), show(hi as u32), f(&want)),
                        );
                        return;
                    }
                    Err(p) => {
                        w.bad("panic", format!("a range query panicked: {p}"));
                        return;
                    }
                }
            }
            Ix::Pairs(t) => {
                let nd = &nodes[t as usize % nn];
                let is: Vec<u32> = nd.truth.keys().copied().take(8).collect();
                for a in &is {
                    for d in &is {
                        let (x, y) = (q[*a as usize], q[*d as usize]);
                        let want = ranks[*a as usize].cmp(&ranks[*d as usize]);
                        let r = sim(c, stack, || {
                            let h = |k: &Q| {
                                use std::hash::Hasher;
                                let mut s = std::collections::hash_map::DefaultHasher::new();
                                k.hash(&mut s);
                                s.finish()
                            };
                            (
                                x.cmp(&y),
                                x.partial_cmp(&y),
                                [x < y, x <= y, x == y, x != y, x >= y, x > y],
                                x.max(y).cmp(&x.min(y)),
                                h(&x) == h(&y),
                            )
                        });
                        count("pairs", 1);
                        let (lt, eq) = (want.is_lt(), want.is_eq());
                        let ok = match &r {
                            Ok((c, p, v, mm, h)) => {
                                *c == want
                                    && *p == Some(want)
                                    && *v == [lt, lt || eq, eq, !eq, !lt, !lt && !eq]
                                    && (mm.is_eq() == eq && !mm.is_lt())
                                    && (!eq || *h)
                            }
                            Err(_) => false,
                        };
                        if !ok {
                            w.bad("wrong-order", format!("{} against {}: {r:?}, should be {want:?}", show(*a), show(*d)));
                            return;
                        }
                    }
                }
            }
            Ix::Rebuild(t, fwd) => {
                count("crash.node", 1);
                let t = t as usize % nn;
                let old = nodes[t].clone();
                let mut items: Vec<_> = old.truth.iter().map(|(i, s)| (*i, *s)).collect();
                if !fwd {
                    items.reverse();
                }
                let mut nd = INode { tree: BTreeMap::new(), hash: Hm::default(), sorted: vec![], truth: BTreeMap::new() };
                let r = sim(c, stack, || {
                    for (i, s) in &items {
                        nd.put(q[*i as usize], *i, s.0, s.1);
                    }
                    nd
                });
                match r {
                    Ok(nd) => nodes[t] = nd,
                    Err(p) => {
                        w.bad("panic", format!("rebuilding an index panicked: {p}"));
                        return;
                    }
                }
            }
        }
        count("events", 1);
    }
    // catch up
    for t in 0..nn {
        for (i, s, on) in &all {
            if let Err(p) = sim(c, stack, || nodes[t].put(q[*i as usize], *i, *s, *on)) {
                w.bad("panic", format!("indexing {} panicked: {p}", show(*i)));
                return;
            }
        }
        let nd = nodes[t].clone();
        if !check(w, &nd, t) {
            return;
        }
    }
}
