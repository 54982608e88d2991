//! Executes the steps of one phase inside a forked child and judges them.
use crate::case::*;
use crate::repl;
use crate::hooks::{self, Ctx, NCLASS};
use crate::rng::{fnv, Rng};
use crate::{gen, oldrel, sched};
use adapter::iofmt::{self, Fmt, Ty, Val};
use adapter::simfmt::{self, Deliv, Hook, SimErr, Tok};
use adapter::{Op, Res};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

/// yield points one call may use before it counts as stuck
pub const CALL_LIMIT: u64 = 3_000_000;

pub struct Env {
    pub pool: Vec<Op>,
    /// results in a fresh process, and the steps each needed
    pub expect: Vec<(String, u64)>,
    pub out: Outcome,
    pub prop: String,
    pub keep_results: bool,
    pub where_: Vec<usize>,
}
impl Env {
    pub fn new(prop: &str, pool: Vec<Op>, expect: Vec<(String, u64)>, files: Vec<File>) -> Env {
        Env {
            pool,
            expect,
            out: Outcome { files, ..Outcome::default() },
            prop: prop.to_string(),
            keep_results: false,
            where_: vec![],
        }
    }
}
static mut ENV: Option<Box<Env>> = None;
#[allow(static_mut_refs)]
pub fn env() -> &'static mut Env {
    unsafe { ENV.as_deref_mut().unwrap() }
}
pub fn set_env(e: Env) {
    unsafe { ENV = Some(Box::new(e)) }
}
pub fn count(k: &str, n: u64) {
    *env().out.counts.entry(k.to_string()).or_default() += n;
}
pub fn violation(class: &str, detail: String, client: usize, step: usize) {
    let v = &mut env().out.violations;
    if v.len() < 20 {
        v.push(Violation { class: class.into(), detail, client, step });
    }
}

thread_local!(static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) });
const INJECTED_PANIC: &str = "simulated unwinding caller";
pub fn panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _p = hooks::pause();
        let m = match (info.payload().downcast_ref::<&str>(), info.payload().downcast_ref::<String>()) {
            (Some(s), _) => s.to_string(),
            (_, Some(s)) => s.clone(),
            _ => "?".into(),
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !sched::in_child() {
            eprintln!("harness panic: {m} at {loc}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{m} @ {loc}"));
    }));
}
#[allow(static_mut_refs)]
fn last_panic() -> String {
    LAST_PANIC.try_with(|p| p.borrow().clone()).unwrap_or_default()
}
/// The message alone: it comes from the payload, because a call made while the thread is being torn
/// down can no longer reach LAST_PANIC.
fn message(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

pub fn show(r: Res) -> String {
    match r {
        Res::F(f) => format!("Ok(F {:?} {:#x})", f, f.to_bits()),
        Res::Err(e) => format!("Err({} | {:?})", e, e),
        Res::S(s) => match std::str::from_utf8(s.as_bytes()) {
            Ok(s) => format!("Ok(S {:?})", s),
            Err(_) => format!("Ok(INVALID-UTF8 {:?})", s.as_bytes()),
        },
        r => format!("Ok({:?})", r),
    }
}

/// One call, entered into the simulation and judged by nobody yet.
pub fn call(op: &Op, arena: &mut Vec<u8>, c: *mut Ctx, stack: u64, place: u64) -> (String, u64) {
    // the text argument and the stack of a client are always at the same addresses, unless placed elsewhere
    arena.clear();
    if place != 0 {
        let off = match place >> 32 & 3 {
            0 => 0,
            1 => place as usize >> 8 & 63,
            2 => place as usize >> 8 & 4095,
            _ => (4096 - (arena.as_ptr() as usize & 4095) + 4096 - op.s.len().min(4000)) & 4095,
        };
        arena.resize(off, 0xa5);
        count("memory.displaced_calls", 1);
    }
    let at = arena.len();
    arena.extend_from_slice(op.s.as_bytes());
    let s: &str = std::str::from_utf8(&arena[at..]).unwrap();
    let c0;
    unsafe {
        sched::set_limit(&mut *c, CALL_LIMIT);
        c0 = (*c).count;
    }
    hooks::poison_stack(stack);
    let saved = hooks::set_ctx(c);
    let mut r = None;
    hooks::placed(place as u8, &mut || r = Some(catch_unwind(AssertUnwindSafe(|| adapter::exec(op, s)))));
    let r = r.unwrap();
    hooks::set_ctx(saved);
    let used = unsafe { (*c).count - c0 };
    let out = match r {
        Ok(r) => match catch_unwind(AssertUnwindSafe(|| show(r))) {
            Ok(s) => s,
            Err(p) => format!("PANIC in formatting {}", message(p)),
        },
        Err(p) => format!("PANIC {}", message(p)),
    };
    (out, used)
}

pub fn ctx_for(id: usize) -> Ctx {
    Ctx {
        id,
        count: 0,
        limit: u64::MAX,
        next: u64::MAX,
        cd: [u64::MAX; NCLASS],
        slice: 0,
        random: false,
        stack: sched::stack_bounds(),
        passed: [0; NCLASS],
    }
}

// ---- faulty readers and writers ----------------------------------------------------------
fn kind(k: u8) -> io::Error {
    use io::ErrorKind::*;
    let ks = [Other, WouldBlock, TimedOut, BrokenPipe, ConnectionReset, StorageFull, PermissionDenied, UnexpectedEof];
    io::Error::new(ks[k as usize % ks.len()], "simulated fault")
}
fn act_name(a: &Act) -> &'static str {
    match a {
        Act::Short(_) => "short",
        Act::Intr => "eintr",
        Act::ErrOnce(_) => "error_once",
        Act::ErrAll(_) => "error_forever",
        Act::Zero => "zero",
        Act::Panic => "caller_unwinds",
        Act::Reenter(_) => "reentrant_call",
    }
}
struct Dev<'a> {
    s: &'a Script,
    n: u32,
    dead: Option<u8>,
    hard: bool,
    after_hard: bool,
    client: usize,
    step: usize,
    dir: &'static str,
}
impl<'a> Dev<'a> {
    fn new(s: &'a Script, client: usize, step: usize, dir: &'static str) -> Self {
        Dev { s, n: 0, dead: None, hard: false, after_hard: false, client, step, dir }
    }
    /// how many bytes this call may move
    fn gate(&mut self, len: usize) -> io::Result<usize> {
        hooks::yield_io();
        let _p = hooks::pause();
        let k = self.n;
        self.n += 1;
        if self.hard {
            self.after_hard = true;
        }
        if let Some(e) = self.dead {
            return Err(kind(e));
        }
        let lim = if self.s.chunk == 0 { len } else { len.min(self.s.chunk as usize) };
        if lim < len {
            count(&format!("{}.chunked", self.dir), 1);
        }
        let Some(a) = self.s.acts.get(&k) else { return Ok(lim) };
        count(&format!("{}.{}", self.dir, act_name(a)), 1);
        match a {
            Act::Short(n) => Ok(lim.min((*n as usize).max(1))),
            Act::Intr => Err(io::Error::from(io::ErrorKind::Interrupted)),
            Act::ErrOnce(e) => {
                self.hard = true;
                Err(kind(*e))
            }
            Act::ErrAll(e) => {
                self.hard = true;
                self.dead = Some(*e);
                Err(kind(*e))
            }
            Act::Zero => {
                self.hard = true;
                Ok(0)
            }
            Act::Panic => {
                self.hard = true;
                drop(_p);
                std::panic::panic_any(INJECTED_PANIC)
            }
            Act::Reenter(ops) => {
                for o in ops {
                    nested(*o, _p.ctx(), self.client, self.step);
                }
                Ok(lim)
            }
        }
    }
}
struct SimWrite<'a> {
    d: Dev<'a>,
    out: Vec<u8>,
    tail: Vec<u8>,
    /// client whose file receives the bytes as they come
    file: Option<usize>,
}
impl Write for SimWrite<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.d.gate(b.len())?;
        let _p = hooks::pause();
        if self.d.after_hard {
            self.tail.extend_from_slice(&b[..n]);
        } else {
            self.out.extend_from_slice(&b[..n]);
        }
        if let Some(f) = self.file {
            env().out.files[f].pending.push(b[..n].to_vec());
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct SimRead<'a> {
    d: Dev<'a>,
    data: &'a [u8],
    pos: usize,
}
impl Read for SimRead<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.d.gate(b.len())?.min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A call made from inside a callback that the library (or a format) made.
fn nested(o: u32, c: *mut Ctx, client: usize, step: usize) {
    let e = env();
    let op = e.pool[o as usize % e.pool.len()].clone();
    let mut arena = Vec::with_capacity(op.s.len() + 64);
    let (r, _) = call(&op, &mut arena, c, 0, 0);
    count("nested_calls", 1);
    judge(o, &r, client, step, "reentrant-call-differs");
}
fn judge(o: u32, r: &str, client: usize, step: usize, class: &str) {
    let e = env();
    let i = o as usize % e.pool.len();
    let want = &e.expect[i].0;
    if r != want {
        violation(class, format!("{} returned {r} but a fresh process returns {want}", show_op(&e.pool[i])), client, step);
    }
}
pub fn show_op(o: &Op) -> String {
    format!("{:?}({:?}, n={:?}, e={:?})", o.k, o.s, o.n, o.e)
}

// ---- calls at thread exit ------------------------------------------------------------------
// Thread-local destructors run in the reverse order of registration: what was registered when the
// thread began is destroyed after the library's own thread-local state.
#[derive(Default)]
struct AtExit(RefCell<Vec<(u32, usize, usize, u64)>>);
impl Drop for AtExit {
    fn drop(&mut self) {
        let mut c = Box::new(ctx_for(usize::MAX));
        for (o, client, step, stack) in std::mem::take(&mut *self.0.borrow_mut()) {
            let e = env();
            let op = e.pool[o as usize % e.pool.len()].clone();
            let mut arena = Vec::with_capacity(op.s.len() + 64);
            let (r, _) = call(&op, &mut arena, &mut *c, stack, 0);
            count("calls_at_thread_exit", 1);
            let e = env();
            e.out.log = fnv(e.out.log, r.as_bytes());
            if e.keep_results {
                e.out.results.push(format!("{client}.{step} at thread exit: {r}"));
            }
            judge(o, &r, client, step, "exit-call-differs");
        }
    }
}
thread_local!(static EXIT_EARLY: AtExit = AtExit::default());
thread_local!(static EXIT_LATE: AtExit = AtExit::default());

// ---- values ------------------------------------------------------------------------------
pub fn dbg(v: &Val) -> String {
    format!("{:?}", v)
}
pub fn in_range(v: &Val) -> Result<(), String> {
    for l in v.leaves() {
        match l {
            Val::Date(d) => {
                let x = i32::from(d) as i64;
                if !(x == i32::MIN as i64 || x == i32::MAX as i64 || (gen::DATE_MIN..gen::DATE_END).contains(&x)) {
                    return Err(format!("{:?} is outside the range of dates", d));
                }
            }
            Val::Time(t) => {
                let x = i64::from(t);
                if !(0..=gen::DAY).contains(&x) {
                    return Err(format!("{:?} is outside the range of times", t));
                }
            }
            Val::Ts(t) => {
                let x = i64::from(t);
                if !(x == i64::MIN || x == i64::MAX || (gen::TS_MIN..gen::TS_END).contains(&x)) {
                    return Err(format!("{:?} is outside the range of timestamps", t));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

pub(crate) fn sim<T>(c: *mut Ctx, stack: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    unsafe { sched::set_limit(&mut *c, CALL_LIMIT) };
    hooks::poison_stack(stack);
    let saved = hooks::set_ctx(c);
    let r = catch_unwind(AssertUnwindSafe(f));
    hooks::set_ctx(saved);
    r.map_err(|p| {
        if p.downcast_ref::<&str>() == Some(&INJECTED_PANIC) {
            "INJECTED".to_string()
        } else {
            last_panic()
        }
    })
}

struct Client<'a> {
    id: usize,
    c: *mut Ctx,
    arena: Vec<u8>,
    ph: &'a Phase,
}

impl Client<'_> {
    fn log(&mut self, step: usize, s: &str) {
        let e = env();
        e.out.log = fnv(e.out.log, &[self.id as u8]);
        e.out.log = fnv(e.out.log, &(step as u32).to_le_bytes());
        e.out.log = fnv(e.out.log, s.as_bytes());
        if e.keep_results {
            e.out.results.push(format!("{}.{step}: {s}", self.id));
        }
    }
    /// fault-free encoding into memory
    fn plain(&mut self, f: Fmt, v: &Val) -> Result<Result<Vec<u8>, String>, String> {
        sim(self.c, self.ph.stack, || {
            let mut b = Vec::new();
            iofmt::encode(f, v, &mut b).map(|_| b)
        })
    }

    fn step(&mut self, i: usize, st: &Step) {
        env().where_[self.id] = i;
        let (me, stack) = (self.id, self.ph.stack);
        match st {
            Step::Call(o) => {
                let e = env();
                let op = e.pool[*o as usize % e.pool.len()].clone();
                let place = if self.ph.place == 0 { 0 } else { crate::rng::mix(self.ph.place ^ (i as u64) << 8 ^ me as u64) | 1 << 40 };
                let (r, used) = call(&op, &mut self.arena, self.c, stack, place);
                self.log(i, &r);
                count("calls", 1);
                let want = &env().expect[*o as usize % env().pool.len()];
                if want.1 != 0 && used > want.1 * 8 + 200_000 {
                    violation(
                        "too-many-steps",
                        format!("{} took {used} steps, {} in a fresh process", show_op(&op), want.1),
                        me,
                        i,
                    );
                }
                judge(*o, &r, me, i, "result-differs");
            }
            Step::AtExit { o, late } => {
                let x = (*o, self.id, i, stack);
                if *late {
                    EXIT_LATE.with(|e| e.0.borrow_mut().push(x));
                } else {
                    EXIT_EARLY.with(|e| e.0.borrow_mut().push(x));
                }
            }
            Step::Append { v, f, sink } => self.append(i, v, *f, sink),
            Step::Sync { fail } => {
                let file = &mut env().out.files[me];
                if *fail {
                    // fsync reported an error: nothing is acknowledged, the pages may or may not be there
                    count("disk.fsync_error", 1);
                } else {
                    for p in std::mem::take(&mut file.pending) {
                        file.durable.extend_from_slice(&p);
                    }
                    file.acked = file.log.len();
                    count("disk.fsync", 1);
                }
            }
            Step::ReadAll { src } => self.read_all(i, src),
            Step::Damage { v, f, d, src, slice } => {
                let val = v.build();
                let bytes = match self.plain(*f, &val) {
                    Ok(Ok(b)) => b,
                    Ok(Err(_)) if f.human() && v.may_refuse() => return,
                    Ok(Err(e)) => {
                        violation("encode-refused", format!("{:?} of {} failed: {e}", f, dbg(&val)), me, i);
                        return;
                    }
                    Err(p) => {
                        violation("encode-panic", format!("{:?} of {} panicked: {p}", f, dbg(&val)), me, i);
                        return;
                    }
                };
                let mut b = bytes.clone();
                for x in d {
                    apply(x, &mut b);
                    count(&format!("damage.{}", format!("{:?}", x).split('(').next().unwrap().to_lowercase()), 1);
                }
                self.decode_damaged(i, v.ty, *f, &b, src, *slice);
            }
            Step::Garbage { ty, f, bytes, src, slice } => {
                count("damage.garbage", 1);
                self.decode_damaged(i, *ty, *f, bytes, src, *slice)
            }
            Step::Sink { v, f, sink } => self.sink(i, v, *f, sink),
            Step::Ser { v, human, at, act } => self.ser(i, v, *human, *at, act),
            Step::Deliver { ty, d, human, at, act } => self.deliver(i, *ty, d, *human, *at, act),
            Step::Churn { seed, n, kinds } => self.churn(i, *seed, *n, *kinds),
            Step::Repl(_) | Step::Index(_) => {
                let lax = env().prop == "C18";
                let c = self.c;
                let mut log = |s: &str| self.log(i, s);
                let mut w = repl::World { c, stack, me, i, log: &mut log, lax, text: Vec::with_capacity(4096) };
                match st {
                    Step::Repl(sp) => repl::run(&mut w, sp),
                    Step::Index(sp) => repl::index(&mut w, sp),
                    _ => {}
                }
            }
        }
    }

    fn append(&mut self, i: usize, v: &VSpec, f: Fmt, sink: &Script) {
        let me = self.id;
        let val = v.build();
        let mut w = SimWrite { d: Dev::new(sink, me, i, "write"), out: vec![], tail: vec![], file: Some(me) };
        let mixed = env().prop == "C12";
        let form = if mixed { oldrel::bytes(v, f) } else { None };
        let mut rec = Stored { ty: v.ty, f, want: dbg(&val), end: 0, form: form.clone() };
        let before = {
            let file = &mut env().out.files[me];
            file.inflight = Some(rec.clone());
            file.pending.len()
        };
        let r = if self.ph.old {
            count("release.old_appends", 1);
            sim(self.c, self.ph.stack, || match &form {
                Some(b) => w.write_all(b).map_err(|e| e.to_string()),
                None => Err("refused".into()),
            })
        } else {
            sim(self.c, self.ph.stack, || iofmt::encode(f, &val, &mut w))
        };
        count("appends", 1);
        let file = &mut env().out.files[me];
        file.inflight = None;
        if !matches!(r, Ok(Ok(()))) {
            // the client takes back what a failed append left behind
            file.pending.truncate(before);
        }
        match r {
            Err(p) if p == "INJECTED" => self.log(i, "unwound"),
            Err(p) => {
                self.log(i, "panic");
                violation("encode-panic", format!("{:?} of {} panicked: {p}", f, dbg(&val)), me, i);
            }
            Ok(Err(e)) => {
                self.log(i, &e);
                if !w.d.hard && !(f.human() && v.may_refuse()) {
                    violation("encode-refused", format!("{:?} of {} failed: {e}", f, dbg(&val)), me, i);
                }
                count("append_errors", 1);
            }
            Ok(Ok(())) => {
                let file = &mut env().out.files[me];
                if f.human() {
                    file.pending.push(b"\n".to_vec());
                }
                rec.end = file.bytes().len();
                file.log.push(rec);
                let s = format!("append {:?}", w.out);
                self.log(i, &s);
                if mixed && !self.ph.old {
                    count("release.forms_compared", 1);
                    let t = |b: &[u8]| if f.human() { String::from_utf8_lossy(b).into_owned() } else { format!("{b:?}") };
                    match &form {
                        Some(b) if *b == w.out => {}
                        Some(b) => violation(
                            "stored-form-changed",
                            format!("{} ({:?}) is now stored as {}, earlier releases store {}", dbg(&val), f, t(&w.out), t(b)),
                            me,
                            i,
                        ),
                        None => violation(
                            "stored-form-changed",
                            format!("{} ({:?}) is now stored as {}, earlier releases refuse it", dbg(&val), f, t(&w.out)),
                            me,
                            i,
                        ),
                    }
                }
            }
        }
    }

    /// what is in the file must be exactly what was appended (no crash in between)
    fn read_all(&mut self, i: usize, src: &Script) {
        let me = self.id;
        let file = env().out.files[me].clone();
        let data = file.bytes();
        let mut rd = SimRead { d: Dev::new(src, me, i, "read"), data: &data, pos: 0 };
        for (k, rec) in file.log.iter().enumerate() {
            let Stored { f, want, end, .. } = rec;
            let r = sim(self.c, self.ph.stack, || fetch(self.ph.old, rec, &mut rd));
            count("records_read", 1);
            match r {
                Err(p) => return violation("decode-panic", format!("{:?} of stored {want} panicked: {p}", f), me, i),
                Ok(Err(e)) => {
                    self.log(i, &e);
                    if rd.d.hard {
                        return; // a fault of the source, reported as an error: allowed
                    }
                    return violation("decode-failed", format!("stored {want} ({:?}) cannot be read back: {e}", f), me, i);
                }
                Ok(Ok(got)) => {
                    self.log(i, &got);
                    if got != *want {
                        return violation("wrong-value", format!("record {k}: stored {want} ({:?}), read back {got}", f), me, i);
                    }
                    if !framed(*f, rd.pos, *end) {
                        return violation("misframed", format!("record {k}: {want} ({:?}) ends at byte {end}, decoding it stopped at byte {}", f, rd.pos), me, i);
                    }
                    // text formats may or may not have looked at the line end
                    rd.pos = *end;
                }
            }
        }
    }

    fn decode_damaged(&mut self, i: usize, ty: Ty, f: Fmt, b: &[u8], src: &Script, slice: bool) {
        let me = self.id;
        count("damaged_decodes", 1);
        let r = if slice {
            sim(self.c, self.ph.stack, || iofmt::decode_slice(f, ty, b))
        } else {
            let mut rd = SimRead { d: Dev::new(src, me, i, "read"), data: b, pos: 0 };
            sim(self.c, self.ph.stack, || iofmt::decode(f, ty, &mut rd))
        };
        let shown = || format!("{:?} {:?} from {:?}", f, ty, String::from_utf8_lossy(b));
        let v = match r {
            Err(p) => {
                self.log(i, "panic");
                return violation("decode-panic", format!("decoding {} panicked: {p}", shown()), me, i);
            }
            Ok(Err(e)) => {
                count("damage_detected", 1);
                return self.log(i, &e);
            }
            Ok(Ok(v)) => v,
        };
        let got = dbg(&v);
        self.log(i, &got);
        count("damage_undetected", 1);
        if let Err(e) = in_range(&v) {
            return violation("out-of-range", format!("decoding {} gave {got}: {e}", shown()), me, i);
        }
        // what was accepted must be a value like any other
        for g in [f, Fmt::Json, Fmt::Bincode] {
            match self.plain(g, &v) {
                Err(p) => {
                    return violation("reencode-panic", format!("decoding {} gave {got}, encoding that as {:?} panicked: {p}", shown(), g), me, i)
                }
                Ok(Err(e)) => {
                    if g.human() && refusable(&v) {
                        continue;
                    }
                    return violation("reencode-failed", format!("decoding {} gave {got}, encoding that as {:?} failed: {e}", shown(), g), me, i);
                }
                Ok(Ok(b2)) => match sim(self.c, self.ph.stack, || iofmt::decode_slice(g, ty, &b2)) {
                    Ok(Ok(v2)) if dbg(&v2) == got => {}
                    r => {
                        return violation(
                            "unstable",
                            format!("decoding {} gave {got}, which {:?} turns into {:?}", shown(), g, r.map(|r| r.map(|v| dbg(&v)))),
                            me,
                            i,
                        )
                    }
                },
            }
        }
    }

    fn sink(&mut self, i: usize, v: &VSpec, f: Fmt, sink: &Script) {
        let me = self.id;
        let val = v.build();
        let reference = match self.plain(f, &val) {
            Ok(r) => r,
            Err(p) => return violation("encode-panic", format!("{:?} of {} panicked: {p}", f, dbg(&val)), me, i),
        };
        let mut w = SimWrite { d: Dev::new(sink, me, i, "write"), out: vec![], tail: vec![], file: None };
        let r = sim(self.c, self.ph.stack, || iofmt::encode(f, &val, &mut w));
        count("faulty_encodes", 1);
        let what = || format!("{:?} of {}", f, dbg(&val));
        let (hard, dead) = (w.d.hard, w.d.dead);
        let _ = dead;
        self.log(i, &format!("{:?} {:?}", r, w.out));
        let full = reference.clone().unwrap_or_default();
        if !full.starts_with(&w.out) && reference.is_ok() {
            violation("not-a-prefix", format!("{}: a faulty sink received {:?}, a good one {:?}", what(), w.out, full), me, i);
        }
        if !w.tail.is_empty() {
            violation("wrote-after-error", format!("{}: {:?} was written after the sink had failed", what(), w.tail), me, i);
        }
        match r {
            Err(p) if p == "INJECTED" => {}
            Err(p) => violation("encode-panic", format!("{} into a faulty sink panicked: {p}", what()), me, i),
            Ok(Ok(())) => {
                if reference.is_err() {
                    violation("accepted", format!("{} is refused by a good sink and accepted by a faulty one", what()), me, i);
                } else if w.out != full {
                    violation("swallowed-error", format!("{} reported success but only {:?} of {:?} was written", what(), w.out, full), me, i);
                }
            }
            Ok(Err(e)) => {
                if !hard && reference.is_ok() {
                    violation("spurious-error", format!("{} failed without a sink error: {e}", what()), me, i);
                }
            }
        }
        // retry
        match self.plain(f, &val) {
            Ok(r2) if r2 == reference => {}
            r2 => violation("retry-differs", format!("{}: before the fault {:?}, after it {:?}", what(), reference, r2), me, i),
        }
    }

    fn ser(&mut self, i: usize, v: &VSpec, human: bool, at: u32, act: &Act) {
        let me = self.id;
        let val = v.build();
        let go = |h: &dyn Hook| match &val {
            Val::Date(x) => simfmt::ser(x, human, h),
            Val::Time(x) => simfmt::ser(x, human, h),
            Val::Ts(x) => simfmt::ser(x, human, h),
            Val::Iv(x) => simfmt::ser(x, human, h),
            _ => (Ok(()), vec![]),
        };
        let what = || format!("serializing {} (human-readable: {human})", dbg(&val));
        let reference = match sim(self.c, self.ph.stack, || go(&simfmt::NoHook)) {
            Ok(r) => r,
            Err(p) => return violation("encode-panic", format!("{} panicked: {p}", what()), me, i),
        };
        // the binary form is the three parts, the text form one string
        if reference.0.is_ok() {
            let bad = match (&val, human) {
                (_, true) => !matches!(reference.1.as_slice(), [Tok::Str(_)]),
                (Val::Date(d), _) => reference.1 != [Tok::I32(i32::from(*d))],
                (Val::Time(t), _) => reference.1 != [Tok::I64(i64::from(*t))],
                (Val::Ts(t), _) => reference.1 != [Tok::I64(i64::from(*t))],
                _ => {
                    let g = |k| v.n.get(k).copied().unwrap_or(0);
                    let mut fields = BTreeMap::new();
                    let mut name = String::new();
                    for t in &reference.1 {
                        match t {
                            Tok::Field(n) => name = n.clone(),
                            Tok::I32(x) => drop(fields.insert(name.clone(), *x as i64)),
                            Tok::I64(x) => drop(fields.insert(name.clone(), *x)),
                            _ => {}
                        }
                    }
                    let want: BTreeMap<String, i64> =
                        [("time", g(0)), ("day", g(1)), ("month", g(2))].iter().map(|(a, b)| (a.to_string(), *b)).collect();
                    fields != want || reference.1.first() != Some(&Tok::Struct("Interval".into(), 3)) || reference.1.last() != Some(&Tok::End)
                }
            };
            if bad {
                violation("wrong-encoding", format!("{} gave {:?}", what(), reference.1), me, i);
            }
        }
        let h = Fault { at, act, n: Cell::new(0), failed: Cell::new(false), after: Cell::new(0), client: me, step: i };
        let r = sim(self.c, self.ph.stack, || go(&h));
        count("faulty_serializations", 1);
        self.log(i, &format!("{:?}", r));
        match r {
            Err(p) if p == "INJECTED" => {}
            Err(p) => violation("encode-panic", format!("{} panicked: {p}", what()), me, i),
            Ok((res, toks)) => {
                if !reference.1.starts_with(&toks) {
                    violation("not-a-prefix", format!("{} gave {:?} under a fault, {:?} without", what(), toks, reference.1), me, i);
                }
                if h.failed.get() {
                    if h.after.get() > 0 {
                        violation("wrote-after-error", format!("{} went on after the serializer had failed", what()), me, i);
                    }
                    if res != Err(SimErr::Injected(at)) {
                        violation("swallowed-error", format!("{}: the serializer failed with Injected({at}) and the caller got {:?}", what(), res), me, i);
                    }
                } else if res != reference.0 || toks != reference.1 {
                    violation("result-differs", format!("{}: {:?} {:?} instead of {:?}", what(), res, toks, reference), me, i);
                }
            }
        }
        match sim(self.c, self.ph.stack, || go(&simfmt::NoHook)) {
            Ok(r2) if r2 == reference => {}
            r2 => violation("retry-differs", format!("{}: {:?} before the fault, {:?} after", what(), reference, r2), me, i),
        }
    }

    fn deliver(&mut self, i: usize, ty: Ty, d: &Deliv, human: bool, at: u32, act: &Option<Act>) {
        let me = self.id;
        let none = Act::Short(0);
        let h = Fault {
            at: if act.is_some() { at } else { u32::MAX },
            act: act.as_ref().unwrap_or(&none),
            n: Cell::new(0),
            failed: Cell::new(false),
            after: Cell::new(0),
            client: me,
            step: i,
        };
        let hints = RefCell::new(Vec::with_capacity(64));
        let r = sim(self.c, self.ph.stack, || match ty {
            Ty::Date => simfmt::de(d, human, &h, &hints).map(Val::Date),
            Ty::Time => simfmt::de(d, human, &h, &hints).map(Val::Time),
            Ty::Ts => simfmt::de(d, human, &h, &hints).map(Val::Ts),
            _ => simfmt::de(d, human, &h, &hints).map(Val::Iv),
        });
        count("scripted_decodes", 1);
        let what = || format!("{:?} (human-readable: {human}) from {:?}", ty, d);
        self.log(i, &format!("{:?}", r.as_ref().map(|r| r.as_ref().map(dbg))));
        let r = match r {
            Err(p) if p == "INJECTED" => return,
            Err(p) => return violation("decode-panic", format!("decoding {} panicked: {p}", what()), me, i),
            Ok(r) => r,
        };
        if h.failed.get() {
            if h.after.get() > 0 {
                violation("read-after-error", format!("{} went on after the source had failed", what()), me, i);
            }
            if r != Err(SimErr::Injected(at)) {
                violation("swallowed-error", format!("{}: the source failed with Injected({at}) and the caller got {:?}", what(), r), me, i);
            }
            return;
        }
        let want = model(ty, d, human);
        match (&want, &r) {
            (Model::Any, Ok(v)) => {
                if let Err(e) = in_range(v) {
                    violation("out-of-range", format!("{} gave {}: {e}", what(), dbg(v)), me, i);
                }
            }
            (Model::Any, Err(_)) => {}
            (Model::Err, Err(_)) => {}
            (Model::Err, Ok(v)) => violation("accepted", format!("{} gave {} instead of an error", what(), dbg(v)), me, i),
            (Model::ErrOr(x), Ok(v)) | (Model::Ok(x), Ok(v)) => {
                if dbg(v) != *x {
                    violation("wrong-value", format!("{} gave {} instead of {x}", what(), dbg(v)), me, i)
                }
            }
            (Model::ErrOr(_), Err(_)) => {}
            (Model::Ok(x), Err(e)) => violation("refused", format!("{} failed with {e} instead of giving {x}", what()), me, i),
        }
    }

    fn churn(&mut self, i: usize, seed: u64, n: u32, kinds: u8) {
        let mut r = Rng::new(seed);
        let me = self.id;
        let single = *r.pick(adapter::KINDS);
        let ks: Vec<adapter::K> = adapter::KINDS
            .iter()
            .copied()
            .filter(|k| match kinds {
                0 => true,
                1 | 10 => gen::has_text(*k),
                2..=8 => (*k as u8) % 7 == kinds % 7,
                _ => *k == single,
            })
            .collect();
        // words nobody has seen before; values at the limits; or whatever comes
        let flavour = r.below(3);
        let mut h = 0;
        // every call on a thread of its own that comes and goes
        let brief = kinds == 10;
        let n = if brief { n / 16 } else { n };
        let mut one = |me: &mut Self, r: &mut Rng| {
            let k = *r.pick(&ks);
            let mut op = gen::op(r, k);
            if flavour == 1 && gen::has_text(k) && r.chance(2, 3) {
                let w: String = (0..1 + r.us(9)).map(|_| (b'a' + r.below(26) as u8) as char).collect();
                let q = op.s.starts_with('"');
                let t = op.s.trim_matches('"').to_string();
                let t = if r.chance(1, 2) { format!("{w} {t}") } else { format!("{t} {w}") };
                op.s = if q { format!("\"{t}\"") } else { t };
            } else if flavour == 2 && r.chance(1, 2) {
                for x in op.n.iter_mut() {
                    if r.chance(1, 2) {
                        *x = *r.pick(&[i64::MIN, i64::MAX, i32::MIN as i64, i32::MAX as i64, -1, 0, gen::DATE_MIN, gen::DATE_END, gen::TS_END]);
                    }
                }
            }
            if brief {
                let s = std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn(move || {
                        let mut c = Box::new(ctx_for(usize::MAX));
                        let mut arena = Vec::with_capacity(4096);
                        call(&op, &mut arena, &mut *c, 0, 0).0
                    })
                    .expect("thread")
                    .join()
                    .expect("thread");
                h = fnv(h, s.as_bytes());
                return;
            }
            let (s, _) = call(&op, &mut me.arena, me.c, 0, 0);
            h = fnv(h, s.as_bytes());
        };
        self.arena.reserve(8192);
        let mut calls = 0u64;
        let mut window = |me: &mut Self, r: &mut Rng, n: u32| {
            let a = hooks::LIVE.load(Relaxed);
            for _ in 0..n {
                one(me, r);
            }
            calls += n as u64;
            hooks::LIVE.load(Relaxed) - a
        };
        window(self, &mut r, n / 4);
        let g: Vec<i64> = [n / 4, n / 2, n].iter().map(|k| window(self, &mut r, *k)).collect();
        let mut more = 0;
        // growing each time: does it go on in proportion to the number of calls?
        if g[0] > 128 && g[1] > 256 && g[2] > 512 {
            more = window(self, &mut r, 8 * n);
            if more > 4 * g[2] && more > 2048 {
                violation(
                    "retained-memory-grows",
                    format!("after {} calls, {n} more left {} more bytes allocated and the next {} another {more}", n, g[2], 8 * n),
                    me,
                    i,
                );
            }
        }
        count("churn_calls", calls);
        if brief {
            count("short_lived_threads", calls);
        }
        count("retained_bytes", g[2].max(0) as u64);
        self.log(i, &format!("{h}"));
    }
}

struct Fault<'a> {
    at: u32,
    act: &'a Act,
    n: Cell<u32>,
    failed: Cell<bool>,
    after: Cell<u32>,
    client: usize,
    step: usize,
}
impl Hook for Fault<'_> {
    fn point(&self, _site: &'static str) -> Result<(), u32> {
        hooks::yield_io();
        let _p = hooks::pause();
        let k = self.n.get();
        self.n.set(k + 1);
        if self.failed.get() {
            self.after.set(self.after.get() + 1);
        }
        if k != self.at {
            return Ok(());
        }
        count(&format!("format.{}", act_name(self.act)), 1);
        match self.act {
            Act::Panic => {
                drop(_p);
                std::panic::panic_any(INJECTED_PANIC)
            }
            Act::Reenter(ops) => {
                for o in ops {
                    nested(*o, _p.ctx(), self.client, self.step);
                }
                Ok(())
            }
            _ => {
                self.failed.set(true);
                Err(self.at)
            }
        }
    }
}

fn refusable(v: &Val) -> bool {
    v.leaves().iter().any(|l| match l {
        Val::Iv(_) => {
            let s = dbg(l);
            let t = s.split("time: ").nth(1).and_then(|x| x.split(',').next()).and_then(|x| x.parse::<i64>().ok());
            t.map_or(false, |t| !(-(i32::MAX as i64)..=i32::MAX as i64).contains(&(t / 3_600_000_000)))
        }
        _ => false,
    })
}

pub fn apply(d: &Dmg, b: &mut Vec<u8>) {
    let n = b.len();
    match d {
        Dmg::Flip(i, bit) if n > 0 => b[*i as usize % n] ^= 1 << (bit % 8),
        Dmg::Trunc(i) => b.truncate(*i as usize % (n + 1)),
        Dmg::Drop(i) if n > 0 => drop(b.remove(*i as usize % n)),
        Dmg::Insert(i, x) => b.insert(*i as usize % (n + 1), *x),
        Dmg::Dup(i, k) if n > 0 => {
            let i = *i as usize % n;
            let j = (i + 1 + *k as usize).min(n);
            let t = b[i..j].to_vec();
            b.splice(j..j, t);
        }
        Dmg::Set(i, x) if n > 0 => {
            let i = *i as usize % n;
            for (k, y) in x.iter().enumerate() {
                if i + k < n {
                    b[i + k] = *y;
                }
            }
        }
        _ => {}
    }
}

// ---- the reference model of structured decoding -------------------------------------------
enum Model {
    Ok(String),
    ErrOr(String),
    Err,
    Any,
}
fn int(d: &Deliv) -> Option<i128> {
    Some(match d {
        Deliv::I8(x) => *x as i128,
        Deliv::I16(x) => *x as i128,
        Deliv::I32(x) => *x as i128,
        Deliv::I64(x) => *x as i128,
        Deliv::U8(x) => *x as i128,
        Deliv::U16(x) => *x as i128,
        Deliv::U32(x) => *x as i128,
        Deliv::U64(x) => *x as i128,
        Deliv::I128(x) => *x,
        Deliv::U128(x) => i128::try_from(*x).ok()?,
        _ => return None,
    })
}
fn text(d: &Deliv) -> Option<&str> {
    match d {
        Deliv::Str(s) | Deliv::Borrowed(s) | Deliv::Owned(s) => Some(s),
        _ => None,
    }
}
fn model(ty: Ty, d: &Deliv, human: bool) -> Model {
    match d {
        // wrappers a format may or may not look through
        Deliv::Some(_) | Deliv::Newtype(_) => return Model::Any,
        Deliv::Bytes(_) | Deliv::ByteBuf(_) | Deliv::Char(_) => return Model::Any,
        _ => {}
    }
    if let Some(s) = text(d) {
        if !human {
            return Model::Any;
        }
        let r = match ty {
            Ty::Date => adapter::Date::try_from_str(s, adapter::DateOrder::YMD).ok().map(Val::Date),
            Ty::Time => adapter::Time::try_from_str(s, -1, adapter::DateOrder::YMD).ok().map(Val::Time),
            Ty::Ts => adapter::Timestamp::try_from_str(s, -1, adapter::DateOrder::YMD).ok().map(Val::Ts),
            _ => adapter::Interval::try_from_str(s, -1, adapter::IntervalStyle::SQLStandard).ok().map(Val::Iv),
        };
        return match r {
            Some(v) => Model::Ok(dbg(&v)),
            None => Model::Err,
        };
    }
    if let Some(x) = int(d) {
        if human {
            // the text form is a string; what a number means there is not specified, but it must not be trusted
            return Model::Any;
        }
        let wide = matches!(d, Deliv::I128(_) | Deliv::U128(_));
        let (lo, hi, inf, natural, name) = match ty {
            Ty::Date => (gen::DATE_MIN, gen::DATE_END - 1, (i32::MIN as i64, i32::MAX as i64), !wide, "Date(Date"),
            Ty::Time => (0, gen::DAY, (0, 0), !wide, "Time(Time"),
            Ty::Ts => (gen::TS_MIN, gen::TS_END - 1, (i64::MIN, i64::MAX), !wide, "Ts(Timestamp"),
            _ => return Model::Err,
        };
        let ok = (lo as i128..=hi as i128).contains(&x) || x == inf.0 as i128 || x == inf.1 as i128;
        let val = format!("{name}({x}))");
        return match (ok, natural) {
            (false, _) => Model::Err,
            (true, true) => Model::Ok(val),
            (true, false) => Model::ErrOr(val),
        };
    }
    let iv = |t: i128, d: i128, m: i128| format!("Iv(Interval {{ time: {t}, day: {d}, month: {m} }})");
    let f64k = |x: i128| i64::try_from(x).is_ok();
    let f32k = |x: i128| i32::try_from(x).is_ok();
    match (ty, d) {
        (Ty::Iv, Deliv::Seq(v)) => {
            if human {
                return Model::Any;
            }
            if v.len() < 3 {
                return Model::Err;
            }
            let Some(p) = v[..3].iter().map(int).collect::<Option<Vec<_>>>() else { return bad_part(&v[..3]) };
            if !f64k(p[0]) || !f32k(p[1]) || !f32k(p[2]) {
                return Model::Err;
            }
            if v.len() > 3 {
                return Model::ErrOr(iv(p[0], p[1], p[2]));
            }
            let nat = v[..3].iter().all(|x| !matches!(x, Deliv::I128(_) | Deliv::U128(_)));
            if nat {
                Model::Ok(iv(p[0], p[1], p[2]))
            } else {
                Model::ErrOr(iv(p[0], p[1], p[2]))
            }
        }
        (Ty::Iv, Deliv::Map(v)) => {
            if human {
                return Model::Any;
            }
            let mut got: BTreeMap<&str, i128> = BTreeMap::new();
            let mut soft = false;
            for (k, x) in v {
                let k = match text(k) {
                    Some(k) => k,
                    // numeric and byte keys: formats may identify fields that way; not specified
                    None => return Model::Any,
                };
                if !["time", "day", "month"].contains(&k) || got.contains_key(k) {
                    return Model::Err;
                }
                let Some(x) = int(x).map(|n| (n, x)) else { return bad_part(std::slice::from_ref(x)) };
                if matches!(x.1, Deliv::I128(_) | Deliv::U128(_)) {
                    soft = true;
                }
                if !(if k == "time" { f64k(x.0) } else { f32k(x.0) }) {
                    return Model::Err;
                }
                got.insert(k, x.0);
            }
            if got.len() < 3 {
                return Model::Err;
            }
            let s = iv(got["time"], got["day"], got["month"]);
            if soft {
                Model::ErrOr(s)
            } else {
                Model::Ok(s)
            }
        }
        _ => Model::Err,
    }
}
fn bad_part(v: &[Deliv]) -> Model {
    // integer parts never come from text, floats, booleans or containers
    if v.iter().any(|x| matches!(x, Deliv::Some(_) | Deliv::Newtype(_))) {
        Model::Any
    } else {
        Model::Err
    }
}

/// Did decoding a record stop where the record ends (text: before or after the line end)?
fn framed(f: Fmt, pos: usize, end: usize) -> bool {
    pos == end || (f.human() && pos + 1 == end)
}

/// Reads one record, by the release that serves this life.
fn fetch(old: bool, rec: &Stored, rd: &mut SimRead) -> Result<String, String> {
    if !old {
        return iofmt::decode(rec.f, rec.ty, rd).map(|v| dbg(&v));
    }
    count("release.old_reads", 1);
    let form = rec.form.as_deref().unwrap_or(&[]);
    let mut got = vec![0; form.len()];
    rd.read_exact(&mut got).map_err(|e| e.to_string())?;
    if got == form {
        Ok(rec.want.clone())
    } else {
        Ok(format!("other bytes: {got:?}"))
    }
}

// ---- a whole phase ------------------------------------------------------------------------
pub fn recover(ph: &Phase) {
    // restart: every client reads its file back, tolerating a torn tail
    let n = env().out.files.len();
    let mut c = ctx_for(usize::MAX);
    for me in 0..n {
        let file = env().out.files[me].clone();
        let data = file.bytes();
        let script = Script { chunk: if ph.first % 2 == 0 { 0 } else { 3 }, acts: BTreeMap::new() };
        let mut rd = SimRead { d: Dev::new(&script, me, 0, "recover"), data: &data, pos: 0 };
        let mut good = 0;
        for (k, rec) in file.log.iter().enumerate() {
            let Stored { f, want, end, .. } = rec;
            if rd.pos >= data.len() {
                break;
            }
            let whole = *end <= data.len();
            count("records_recovered", whole as u64);
            match sim(&mut c, ph.stack, || fetch(ph.old, rec, &mut rd)) {
                Err(p) => {
                    violation("decode-panic", format!("recovering record {k} ({:?}, {want}) panicked: {p}", f), me, 0);
                    break;
                }
                Ok(Err(e)) => {
                    if whole {
                        violation("decode-failed", format!("after a crash, {want} ({:?}) cannot be read back: {e}", f), me, 0);
                    } else {
                        count("torn_tail_refused", 1);
                    }
                    break;
                }
                Ok(Ok(got)) => {
                    // a record of which only separator bytes are missing is whole
                    let body_whole = whole || (f.human() && *end == data.len() + 1);
                    if !body_whole {
                        violation("torn-record-accepted", format!("{want} ({:?}) was torn by the crash but {got} came back", f), me, 0);
                        break;
                    }
                    if got != *want {
                        violation("wrong-value", format!("after a crash, record {k}: stored {want} ({:?}), read back {got}", f), me, 0);
                        break;
                    }
                    good = k + 1;
                    rd.pos = (*end).min(data.len());
                }
            }
        }
        if good == file.log.len() && rd.pos < data.len() {
            if let Some(rec) = &file.inflight {
                let Stored { f, want, .. } = rec;
                match sim(&mut c, ph.stack, || fetch(ph.old, rec, &mut rd)) {
                    Err(p) => violation("decode-panic", format!("recovering the record in flight ({:?}, {want}) panicked: {p}", f), me, 0),
                    Ok(Err(_)) => count("torn_tail_refused", 1),
                    Ok(Ok(got)) if got == *want => count("inflight_whole", 1),
                    Ok(Ok(got)) => violation(
                        "torn-record-accepted",
                        format!("{want} ({:?}) was being written when the process died, {got} came back", f),
                        me,
                        0,
                    ),
                }
            }
        }
        if good < file.acked {
            violation("lost-record", format!("{} records were acknowledged, {good} came back after the crash", file.acked), me, 0);
        }
        let f = &mut env().out.files[me];
        let keep = if good == 0 { 0 } else { f.log[good - 1].end.min(data.len()) };
        f.durable = data[..keep].to_vec();
        if good > 0 && f.log[good - 1].end > keep {
            f.durable.push(b'\n');
        }
        f.pending.clear();
        f.inflight = None;
        f.log.truncate(good);
        f.acked = good;
        let h = fnv(env().out.log, &f.durable);
        env().out.log = h;
    }
}

pub fn run_phase(ph: &Phase, restart: bool) {
    let n = ph.clients.len();
    {
        let e = env();
        e.where_ = vec![0; n];
        while e.out.files.len() < n {
            e.out.files.push(File::default());
        }
    }
    hooks::FILL.store(ph.heap, Relaxed);
    let a = hooks::amb();
    a.seed = ph.ambient.unwrap_or(12345);
    a.wild = ph.ambient.is_some();
    hooks::set_world(a.wild);
    if restart {
        recover(ph);
    }
    if !ph.threads {
        let mut c = Box::new(ctx_for(usize::MAX));
        let cp: *mut Ctx = &mut *c;
        // clients take turns on one thread
        let mut cls: Vec<Client> =
            (0..n).map(|id| Client { id, c: cp, arena: Vec::with_capacity(4096), ph }).collect();
        let most = ph.clients.iter().map(|c| c.len()).max().unwrap_or(0);
        for i in 0..most {
            for (id, cl) in cls.iter_mut().enumerate() {
                if let Some(st) = ph.clients[id].get(i) {
                    cl.step(i, st);
                }
            }
        }
        env().out.steps += c.count;
        env().out.sim_ns += c.count * 50;
    } else {
        let bodies: Vec<Box<dyn FnOnce(usize, &mut Ctx) + Send>> = (0..n)
            .map(|_| {
                let ph: &'static Phase = unsafe { &*(ph as *const Phase) };
                Box::new(move |id: usize, c: &mut Ctx| {
                    if ph.clients[id].iter().any(|s| matches!(s, Step::AtExit { .. })) {
                        EXIT_EARLY.with(|_| ());
                    }
                    let mut cl = Client { id, c, arena: Vec::with_capacity(4096), ph };
                    for (i, st) in ph.clients[id].iter().enumerate() {
                        cl.step(i, st);
                    }
                }) as Box<dyn FnOnce(usize, &mut Ctx) + Send>
            })
            .collect();
        let s = sched::run(bodies, &ph.plan, &ph.freeze, ph.first);
        let o = &mut env().out;
        o.ihash = s.ihash;
        o.steps += s.counts.iter().sum::<u64>();
        o.sim_ns += s.clock;
        o.trace = s.trace;
        for (k, v) in [
            ("sched.switches", s.switches),
            ("sched.preemptions", s.preempts),
            ("sched.stalled_threads", s.freezes),
            ("sched.blocked", s.blocks),
            ("sched.preempt_at_edge", s.classes[0]),
            ("sched.preempt_at_global_access", s.classes[1]),
            ("sched.preempt_at_heap_access", s.classes[2]),
            ("sched.preempt_at_alloc", s.classes[3]),
            ("sched.preempt_at_io", s.classes[5]),
        ] {
            if v > 0 {
                *o.counts.entry(k.into()).or_default() += v;
            }
        }
        o.log = fnv(o.log, &s.ihash.to_le_bytes());
    }
    let a = hooks::amb();
    for (k, v) in [
        ("ambient.clock_reads", a.clock_reads),
        ("ambient.env_reads", a.env_reads),
        ("ambient.random_reads", a.rand_reads),
        ("ambient.other", a.other),
        ("ambient.files_opened", a.files),
        ("memory.filled_blocks", hooks::FILLED.load(Relaxed)),
    ] {
        if v > 0 {
            *env().out.counts.entry(k.into()).or_default() += v;
        }
    }
}
