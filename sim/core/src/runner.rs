//! Runs one case: every phase in a forked child of a process in which the library has never run.
use crate::case::*;
use crate::exec::{self, Env};
use crate::hooks;
use crate::rng::fnv;
use crate::sched;
use adapter::Op;
use std::collections::{BTreeMap, BTreeSet};

const SHM: usize = 64 << 20;
static mut SHMP: *mut u8 = std::ptr::null_mut();
/// one per worker process: how a child hands its outcome back
pub fn shm_init() {
    unsafe {
        SHMP = libc::mmap(
            std::ptr::null_mut(),
            SHM,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        ) as *mut u8;
        assert!(SHMP as isize != -1);
    }
}
struct ShmW(usize);
impl std::io::Write for ShmW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 + b.len() > SHM {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "outcome too large"));
        }
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), SHMP.add(self.0), b.len()) };
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn put<T: serde::Serialize>(x: &T) {
    let mut w = ShmW(8);
    let n = match serde_json::to_writer(&mut w, x) {
        Ok(()) => w.0 - 8,
        Err(_) => 0,
    };
    unsafe { *(SHMP as *mut u64) = n as u64 };
}
fn get<T: serde::de::DeserializeOwned>() -> Option<T> {
    unsafe {
        let n = *(SHMP as *const u64) as usize;
        if n == 0 {
            return None;
        }
        serde_json::from_slice(std::slice::from_raw_parts(SHMP.add(8), n)).ok()
    }
}

fn exit_child() -> ! {
    unsafe { libc::_exit(0) }
}
fn fatal(class: &str, detail: String) -> ! {
    let _p = hooks::pause();
    let e = exec::env();
    let client = sched::sim().map(|s| s.cur).unwrap_or(0);
    let step = e.where_.get(client).copied().unwrap_or(0);
    exec::violation(class, detail, client, step);
    if let Some(s) = sched::sim() {
        e.out.trace = std::mem::take(&mut s.trace);
        e.out.ihash = s.ihash;
        e.out.log = fnv(e.out.log, &s.ihash.to_le_bytes());
    }
    // whatever had been called before counts as reported first
    e.out.finished = true;
    put(&e.out);
    exit_child()
}

pub enum End {
    Done,
    Signal(i32),
    Timeout,
}
/// forks; the child runs `f` and must leave its result with `put`
fn forked(secs: u32, f: impl FnOnce()) -> End {
    unsafe {
        *(SHMP as *mut u64) = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            libc::alarm(secs);
            sched::set_child();
            sched::FATAL = Some(fatal);
            f();
            exit_child();
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGALRM {
                return End::Timeout;
            }
            return End::Signal(s);
        }
        End::Done
    }
}
fn signame(s: i32) -> String {
    match s {
        libc::SIGSEGV => "SIGSEGV".into(),
        libc::SIGABRT => "SIGABRT".into(),
        libc::SIGBUS => "SIGBUS".into(),
        libc::SIGILL => "SIGILL".into(),
        libc::SIGFPE => "SIGFPE".into(),
        libc::SIGTRAP => "SIGTRAP".into(),
        n => format!("signal {n}"),
    }
}

/// What each call of the pool returns in a fresh process of its own.
pub fn expectations(prop: &str, pool: &[Op]) -> Vec<Result<(String, u64), Violation>> {
    let mut v = vec![];
    for op in pool {
        let mut tries = 0;
        loop {
            let end = forked(if tries == 0 { 20 } else { 120 }, || {
                exec::set_env(Env::new(prop, vec![], vec![], vec![]));
                let mut c = exec::ctx_for(usize::MAX);
                let a = hooks::amb();
                a.seed = 12345;
                a.wild = false;
                hooks::set_world(false);
                let mut arena = Vec::with_capacity(4096);
                let r = exec::call(op, &mut arena, &mut c, 0, 0);
                let mut o = Outcome { finished: true, ..Outcome::default() };
                o.results.push(r.0);
                o.steps = r.1;
                put(&o);
            });
            let bad = |class: String, detail: String| Violation { class, detail, client: 0, step: 0 };
            let what = exec::show_op(op);
            v.push(match end {
                End::Done => match get::<Outcome>() {
                    Some(o) if o.violations.is_empty() => Ok((o.results[0].clone(), o.steps)),
                    Some(o) => Err(bad(o.violations[0].class.clone(), format!("{what}: {}", o.violations[0].detail))),
                    None => Err(bad("process-exit".into(), format!("{what} ended the process"))),
                },
                End::Signal(libc::SIGKILL) if tries < 2 => {
                    tries += 1;
                    continue;
                }
                End::Signal(s) => Err(bad("crash".into(), format!("{what} died of {}", signame(s)))),
                End::Timeout if tries < 1 => {
                    tries += 1;
                    continue;
                }
                End::Timeout => Err(bad("no-progress".into(), format!("{what} did not return"))),
            });
            break;
        }
    }
    v
}

#[derive(Clone, Debug, Default)]
pub struct Run {
    pub violations: Vec<Violation>,
    pub counts: BTreeMap<String, u64>,
    pub log: u64,
    pub ihash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub traces: Vec<Vec<sched::Switch>>,
    pub results: Vec<String>,
}

pub fn used_ops(c: &Case) -> BTreeSet<u32> {
    let mut s = BTreeSet::new();
    let act = |a: &Act, s: &mut BTreeSet<u32>| {
        if let Act::Reenter(v) = a {
            s.extend(v.iter().copied())
        }
    };
    for p in &c.phases {
        for st in p.clients.iter().flatten() {
            match st {
                Step::Call(o) | Step::AtExit { o, .. } => drop(s.insert(*o)),
                Step::Append { sink: x, .. }
                | Step::ReadAll { src: x }
                | Step::Damage { src: x, .. }
                | Step::Garbage { src: x, .. }
                | Step::Sink { sink: x, .. } => x.acts.values().for_each(|a| act(a, &mut s)),
                Step::Ser { act: a, .. } => act(a, &mut s),
                Step::Deliver { act: Some(a), .. } => act(a, &mut s),
                _ => {}
            }
        }
    }
    s
}

pub fn run(c: &Case, expect: &[(String, u64)], keep: bool) -> Run {
    let mut out = Run::default();
    let mut files: Vec<File> = vec![];
    for (i, ph) in c.phases.iter().enumerate() {
        let mut tries = 0;
        let o = loop {
            let end = forked(if tries == 0 { 60 } else { 240 }, || {
                let mut e = Env::new(&c.prop, c.pool.clone(), expect.to_vec(), files.clone());
                e.keep_results = keep;
                exec::set_env(e);
                exec::run_phase(ph, i > 0);
                let e = exec::env();
                e.out.finished = true;
                if e.out.violations.is_empty() && !keep {
                    e.out.trace.clear();
                }
                put(&e.out);
            });
            let dead = |class: String, detail: String| Outcome {
                violations: vec![Violation { class, detail, client: 0, step: 0 }],
                ..Outcome::default()
            };
            break match end {
                End::Done => match get::<Outcome>() {
                    Some(o) => o,
                    None => dead("process-exit".into(), "a call ended the process".into()),
                },
                End::Signal(libc::SIGKILL) if tries < 2 => {
                    tries += 1;
                    continue;
                }
                End::Timeout if tries < 1 => {
                    tries += 1;
                    continue;
                }
                End::Signal(s) => dead("crash".into(), format!("the process died of {}", signame(s))),
                End::Timeout => dead("no-progress".into(), "the run did not come to an end".into()),
            };
        };
        for (k, n) in &o.counts {
            *out.counts.entry(k.clone()).or_default() += n;
        }
        out.log = fnv(out.log, &o.log.to_le_bytes());
        out.ihash = fnv(out.ihash, &o.ihash.to_le_bytes());
        out.steps += o.steps;
        out.sim_ns += o.sim_ns;
        out.traces.push(o.trace);
        out.results.extend(o.results);
        out.violations.extend(o.violations);
        if !out.violations.is_empty() {
            break;
        }
        files = o.files;
        if i + 1 < c.phases.len() {
            *out.counts.entry("crash.restarts".into()).or_default() += 1;
            for f in &mut files {
                f.crash(&ph.fate, &mut out.counts);
            }
        }
    }
    out
}

/// A case on its own: its expectations are worked out afresh.
pub fn run_alone(c: &Case, keep: bool) -> Run {
    let used = used_ops(c);
    let mut expect = vec![(String::new(), 0); c.pool.len()];
    for o in used {
        let i = o as usize % c.pool.len().max(1);
        match expectations(&c.prop, std::slice::from_ref(&c.pool[i])).pop().unwrap() {
            Ok(x) => expect[i] = x,
            Err(v) => return Run { log: fnv(0, v.class.as_bytes()), violations: vec![v], ..Run::default() },
        }
    }
    run(c, &expect, keep)
}

/// Which of the calls reach code (or a number of passes through it) not seen before.
pub fn coverage(ops: &[Op], seen: &mut [u8]) -> Vec<(usize, usize)> {
    let s0 = seen.to_vec();
    forked(120, || {
        exec::set_env(Env::new("C01", vec![], vec![], vec![]));
        let mut c = exec::ctx_for(usize::MAX);
        let mut arena = Vec::with_capacity(4096);
        let mut hits: Vec<(usize, Vec<(usize, u8)>)> = vec![];
        let mut seen = s0.clone();
        for (i, op) in ops.iter().enumerate() {
            unsafe { std::ptr::write_bytes(hooks::COV, 0, hooks::MAPSZ) };
            exec::call(op, &mut arena, &mut c, 0, 0);
            let mut new = vec![];
            for g in 0..hooks::MAPSZ {
                let n = unsafe { *hooks::COV.add(g) };
                let b = match n {
                    0 => continue,
                    1 => 1u8,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    _ => 64,
                };
                if seen[g] & b == 0 {
                    seen[g] |= b;
                    new.push((g, seen[g]));
                }
            }
            if !new.is_empty() {
                hits.push((i, new));
            }
        }
        put(&hits);
    });
    let mut out = vec![];
    for (i, new) in get::<Vec<(usize, Vec<(usize, u8)>)>>().unwrap_or_default() {
        for (g, b) in &new {
            seen[*g] |= b;
        }
        out.push((i, new.len()));
    }
    out
}
