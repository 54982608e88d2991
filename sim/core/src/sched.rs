//! The deterministic scheduler. Client threads are real threads (so that thread-locals are real),
//! parked and released one at a time; which one runs, and where it stops, is decided here from the
//! run's seed or from an explicit schedule.
use crate::hooks::{self, Ctx, NCLASS};
use crate::rng::{fnv, Rng};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Switch {
    /// thread that was running, and how many yield points it had passed
    pub t: usize,
    pub at: u64,
    /// thread that runs next
    pub to: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Freeze {
    pub t: usize,
    pub at: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Plan {
    /// mean gap, in yield points of each class, between preemptions (0 = never)
    Random { seed: u64, mean: [u64; NCLASS] },
    List(Vec<Switch>),
}
impl Default for Plan {
    fn default() -> Self {
        Plan::List(vec![])
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Ready,
    Futex(usize, Option<u64>),
    Sleep(u64),
    Frozen,
    Done,
}
pub struct Sim {
    st: Vec<St>,
    words: Vec<AtomicU32>,
    main: AtomicU32,
    pub cur: usize,
    rng: Rng,
    mean: [u64; NCLASS],
    random: bool,
    list: BTreeMap<(usize, u64), usize>,
    list_at: Vec<Vec<u64>>,
    freeze: Vec<Freeze>,
    timed_out: Vec<bool>,
    pub trace: Vec<Switch>,
    pub ihash: u64,
    pub n_switch: u64,
    pub n_preempt: u64,
    pub n_freeze: u64,
    pub n_block: u64,
    pub classes: [u64; NCLASS],
    clock: u64,
}
static mut SIM: Option<Box<Sim>> = None;
static mut CHILD: bool = false;
static mut STEPCLOCK: u64 = 0;
pub const QUANTUM: u64 = 200_000;

#[allow(static_mut_refs)]
pub fn sim() -> Option<&'static mut Sim> {
    unsafe { SIM.as_deref_mut() }
}
pub fn in_child() -> bool {
    unsafe { CHILD }
}
pub fn set_child() {
    unsafe { CHILD = true }
}
pub fn clock() -> u64 {
    match sim() {
        Some(s) => s.clock,
        None => unsafe {
            STEPCLOCK += 1000;
            STEPCLOCK
        },
    }
}
/// Called when a run cannot go on; never returns.
pub static mut FATAL: Option<fn(class: &str, detail: String) -> !> = None;
fn fatal(class: &str, d: String) -> ! {
    unsafe { FATAL.expect("fatal handler")(class, d) }
}

impl Sim {
    fn runnable(&self, not: Option<usize>) -> Vec<usize> {
        (0..self.st.len()).filter(|i| self.st[*i] == St::Ready && Some(*i) != not).collect()
    }
    fn note(&mut self, t: usize, at: u64, to: usize, what: usize) {
        self.n_switch += 1;
        self.clock += 50;
        self.trace.push(Switch { t, at, to });
        self.ihash = fnv(self.ihash, &[t as u8, to as u8]);
        self.ihash = fnv(self.ihash, &(at).to_le_bytes());
        self.ihash = fnv(self.ihash, &(what as u32 & 0xfff).to_le_bytes());
    }
    /// who runs after `t` gave up the processor at `at`
    fn choose(&mut self, t: usize, at: u64, cand: &[usize]) -> usize {
        if self.random {
            return cand[self.rng.us(cand.len())];
        }
        match self.list.get(&(t, at)) {
            Some(x) if cand.contains(x) => *x,
            _ => *cand.iter().find(|x| **x > t).unwrap_or(&cand[0]),
        }
    }
    /// time-outs fire only when nothing else can run, unless the clock got there anyway
    fn wake_timers(&mut self, force: bool) {
        let mut best: Option<u64> = None;
        for s in &self.st {
            if let St::Sleep(d) | St::Futex(_, Some(d)) = s {
                best = Some(best.map_or(*d, |b| b.min(*d)));
            }
        }
        if let Some(b) = best {
            if force && b > self.clock {
                self.clock = b;
            }
            for i in 0..self.st.len() {
                if let St::Sleep(d) | St::Futex(_, Some(d)) = self.st[i] {
                    if d <= self.clock {
                        self.timed_out[i] = true;
                        self.st[i] = St::Ready;
                    }
                }
            }
        }
    }
    fn next_or_die(&mut self, t: usize, at: u64) -> usize {
        self.wake_timers(false);
        let mut c = self.runnable(None);
        if c.is_empty() {
            self.wake_timers(true);
            c = self.runnable(None);
        }
        if c.is_empty() {
            let s: Vec<String> = self.st.iter().map(|s| format!("{:?}", s)).map(|s| s.split('(').next().unwrap().to_string()).collect();
            fatal(
                if self.st.iter().any(|s| *s == St::Frozen) { "blocked-behind-stalled-thread" } else { "deadlock" },
                format!("no thread can run; thread states: {}", s.join(", ")),
            );
        }
        self.choose(t, at, &c)
    }
}

fn hand_over(c: &mut Ctx, to: usize) {
    let s = sim().unwrap();
    s.cur = to;
    c.slice = c.count;
    if c.id == to {
        return;
    }
    s.words[to].store(1, SeqCst);
    hooks::raw_wake(&s.words[to]);
    park(c.id);
}
fn park(me: usize) {
    let s = sim().unwrap();
    while s.words[me].load(SeqCst) == 0 {
        hooks::raw_wait(&s.words[me], 0);
    }
    s.words[me].store(0, SeqCst);
}

fn rearm(s: &mut Sim, c: &mut Ctx) {
    // when does the scheduler want to be asked again?
    let mut n = c.limit;
    if let Some(f) = s.freeze.iter().filter(|f| f.t == c.id).map(|f| f.at).min() {
        n = n.min(f);
    }
    if !s.random {
        let v = &s.list_at[c.id];
        let i = v.partition_point(|x| *x <= c.count);
        if i < v.len() {
            n = n.min(v[i]);
        }
    }
    n = n.min(c.slice + QUANTUM);
    c.next = n;
}

pub fn set_limit(c: &mut Ctx, limit: u64) {
    c.limit = c.count + limit;
    match sim() {
        Some(s) if c.id != usize::MAX => rearm(s, c),
        _ => c.next = c.limit,
    }
}

/// A yield point that the fast path could not dismiss.
pub fn at_yield(c: &mut Ctx, class: usize, what: usize) {
    if c.count >= c.limit {
        fatal("no-progress", format!("thread {} took {} steps in one call", c.id, c.count));
    }
    let Some(s) = sim() else {
        c.next = c.limit;
        return;
    };
    if c.id == usize::MAX {
        return;
    }
    if s.freeze.iter().any(|f| f.t == c.id && f.at <= c.count) {
        s.freeze.retain(|f| f.t != c.id);
        s.n_freeze += 1;
        s.st[c.id] = St::Frozen;
        let to = s.next_or_die_frozen(c.id, c.count);
        if let Some(to) = to {
            s.note(c.id, c.count, to, what);
            hand_over(c, to);
        } else {
            finish_wake_main();
            park(c.id);
        }
        return;
    }
    let mut want = false;
    if s.random {
        if c.cd[class] == 0 {
            c.cd[class] = if s.mean[class] == 0 { u64::MAX } else { s.rng.gap(s.mean[class]) };
            want = true;
        }
    } else if s.list.contains_key(&(c.id, c.count)) {
        want = true;
    }
    if c.count - c.slice >= QUANTUM {
        want = true;
        c.slice = c.count;
    }
    if want {
        s.wake_timers(false);
        let cand = s.runnable(Some(c.id));
        if !cand.is_empty() {
            let to = s.choose(c.id, c.count, &cand);
            s.n_preempt += 1;
            s.classes[class] += 1;
            s.note(c.id, c.count, to, what);
            hand_over(c, to);
        }
    }
    let s = sim().unwrap();
    rearm(s, c);
}
impl Sim {
    fn next_or_die_frozen(&mut self, t: usize, at: u64) -> Option<usize> {
        self.wake_timers(false);
        let c = self.runnable(None);
        if !c.is_empty() {
            return Some(self.choose(t, at, &c));
        }
        if self.st.iter().all(|s| matches!(s, St::Done | St::Frozen)) {
            return None;
        }
        Some(self.next_or_die(t, at))
    }
}

pub fn yield_now(c: &mut Ctx) {
    if let Some(s) = sim() {
        s.wake_timers(false);
        let cand = s.runnable(Some(c.id));
        if !cand.is_empty() {
            let to = s.choose(c.id, c.count, &cand);
            s.note(c.id, c.count, to, 1);
            hand_over(c, to);
        }
        rearm(sim().unwrap(), c);
    }
    if c.count >= c.limit {
        fatal("no-progress", format!("thread {} keeps yielding without progress", c.id));
    }
}
pub fn sleep(c: &mut Ctx, ns: u64) {
    match sim() {
        Some(s) => {
            s.st[c.id] = St::Sleep(s.clock + ns);
            let to = s.next_or_die(c.id, c.count);
            s.note(c.id, c.count, to, 2);
            hand_over(c, to);
            rearm(sim().unwrap(), c);
        }
        None => unsafe { STEPCLOCK += ns },
    }
    if c.count >= c.limit {
        fatal("no-progress", format!("thread {} keeps sleeping without progress", c.id));
    }
}
/// true: woken, false: timed out
pub fn futex_wait(c: &mut Ctx, addr: usize, deadline: Option<u64>) -> bool {
    let Some(s) = sim() else {
        match deadline {
            Some(_) => return false,
            None => fatal("deadlock", "the only thread blocks itself".into()),
        }
    };
    s.n_block += 1;
    s.st[c.id] = St::Futex(addr, deadline);
    s.timed_out[c.id] = false;
    let to = s.next_or_die(c.id, c.count);
    s.note(c.id, c.count, to, 3);
    hand_over(c, to);
    let s = sim().unwrap();
    rearm(s, c);
    !s.timed_out[c.id]
}
pub fn futex_wake(c: &mut Ctx, addr: usize, n: usize) -> i64 {
    let Some(s) = sim() else { return 0 };
    let mut k = 0;
    for i in 0..s.st.len() {
        if k >= n as i64 {
            break;
        }
        if let St::Futex(a, _) = s.st[i] {
            if a == addr {
                s.st[i] = St::Ready;
                s.timed_out[i] = false;
                k += 1;
            }
        }
    }
    // a wake-up is a natural place to lose the processor
    if k > 0 && s.random && s.rng.chance(1, 2) {
        let cand = s.runnable(Some(c.id));
        if !cand.is_empty() {
            let to = s.choose(c.id, c.count, &cand);
            s.note(c.id, c.count, to, 4);
            hand_over(c, to);
        }
    } else if k > 0 && !s.random && s.list.contains_key(&(c.id, c.count)) {
        let cand = s.runnable(Some(c.id));
        if !cand.is_empty() {
            let to = s.choose(c.id, c.count, &cand);
            s.note(c.id, c.count, to, 4);
            hand_over(c, to);
        }
    }
    rearm(sim().unwrap(), c);
    k
}
fn finish_wake_main() {
    let s = sim().unwrap();
    s.main.store(1, SeqCst);
    hooks::raw_wake(&s.main);
}

pub struct Stats {
    pub trace: Vec<Switch>,
    pub ihash: u64,
    pub switches: u64,
    pub preempts: u64,
    pub freezes: u64,
    pub blocks: u64,
    pub classes: [u64; NCLASS],
    pub counts: Vec<u64>,
    pub clock: u64,
    pub frozen: Vec<usize>,
}

pub fn stack_bounds() -> (usize, usize) {
    unsafe {
        let mut a: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_getattr_np(libc::pthread_self(), &mut a);
        let mut p = std::ptr::null_mut();
        let mut n = 0;
        libc::pthread_attr_getstack(&a, &mut p, &mut n);
        libc::pthread_attr_destroy(&mut a);
        // static TLS of threads lies above the stack proper but inside the same block
        (p as usize, p as usize + n)
    }
}

/// Runs the client bodies under `plan`. Each body gets its thread number; it enters the simulation
/// itself with `enter`. Returns when every client has finished or stalls for ever.
pub fn run(bodies: Vec<Box<dyn FnOnce(usize, &mut Ctx) + Send>>, plan: &Plan, freeze: &[Freeze], first: usize) -> Stats {
    let n = bodies.len();
    let (random, rng, mean, list) = match plan {
        Plan::Random { seed, mean } => (true, Rng::new(*seed), *mean, vec![]),
        Plan::List(v) => (false, Rng::new(0), [0; NCLASS], v.clone()),
    };
    let mut list_at = vec![vec![]; n];
    for s in &list {
        if s.t < n {
            list_at[s.t].push(s.at);
        }
    }
    for v in &mut list_at {
        v.sort();
    }
    unsafe {
        SIM = Some(Box::new(Sim {
            st: vec![St::Ready; n],
            words: (0..n).map(|_| AtomicU32::new(0)).collect(),
            main: AtomicU32::new(0),
            cur: 0,
            rng,
            mean,
            random,
            list: list.iter().map(|s| ((s.t, s.at), s.to)).collect(),
            list_at,
            freeze: freeze.to_vec(),
            timed_out: vec![false; n],
            trace: Vec::with_capacity(1 << 14),
            ihash: 0,
            n_switch: 0,
            n_preempt: 0,
            n_freeze: 0,
            n_block: 0,
            classes: [0; NCLASS],
            clock: 0,
        }));
    }
    static STARTED: AtomicU32 = AtomicU32::new(0);
    static mut COUNTS: Vec<u64> = vec![];
    unsafe { COUNTS = vec![0; n] };
    let mut handles: Vec<Option<std::thread::JoinHandle<()>>> = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        STARTED.store(0, SeqCst);
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                let mut c = Box::new(Ctx {
                    id: i,
                    count: 0,
                    limit: u64::MAX,
                    next: 0,
                    cd: [1; NCLASS],
                    slice: 0,
                    random,
                    stack: stack_bounds(),
                    passed: [0; NCLASS],
                });
                STARTED.store(1, SeqCst);
                hooks::raw_wake(&STARTED);
                park(i);
                {
                    let s = sim().unwrap();
                    for k in 0..NCLASS {
                        c.cd[k] = if !random || s.mean[k] == 0 { u64::MAX } else { s.rng.gap(s.mean[k]) };
                    }
                    rearm(s, &mut c);
                }
                b(i, &mut c);
                c.count += 1;
                unsafe {
                    #[allow(static_mut_refs)]
                    {
                        COUNTS[i] = c.count;
                    }
                }
                drop(c);
                let s = sim().unwrap();
                s.st[i] = St::Done;
                s.cur = i;
                finish_wake_main();
            })
            .expect("spawn");
        while STARTED.load(SeqCst) == 0 {
            hooks::raw_wait(&STARTED, 0);
        }
        handles.push(Some(h));
    }
    let s = sim().unwrap();
    let mut to = first.min(n - 1);
    loop {
        s.cur = to;
        s.words[to].store(1, SeqCst);
        hooks::raw_wake(&s.words[to]);
        while s.main.load(SeqCst) == 0 {
            hooks::raw_wait(&s.main, 0);
        }
        s.main.store(0, SeqCst);
        // a finished thread is gone, destructors and all, before anybody else runs
        let done = s.cur;
        if s.st[done] == St::Done {
            if let Some(h) = handles[done].take() {
                let _ = h.join();
            }
        }
        if s.st.iter().all(|x| matches!(x, St::Done | St::Frozen)) {
            break;
        }
        let at = {
            #[allow(static_mut_refs)]
            unsafe {
                COUNTS[done]
            }
        };
        to = s.next_or_die(done, at);
        s.note(done, at, to, 5);
    }
    #[allow(static_mut_refs)]
    let counts = unsafe { COUNTS.clone() };
    let st = Stats {
        trace: std::mem::take(&mut s.trace),
        ihash: s.ihash,
        switches: s.n_switch,
        preempts: s.n_preempt,
        freezes: s.n_freeze,
        blocks: s.n_block,
        classes: s.classes,
        counts,
        clock: s.clock,
        frozen: (0..n).filter(|i| s.st[*i] == St::Frozen).collect(),
    };
    // stalled threads are still parked inside: then the simulator state stays
    if st.frozen.is_empty() {
        unsafe { SIM = None };
    }
    st
}
