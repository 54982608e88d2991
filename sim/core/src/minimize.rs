//! Shrinks a failing case while it keeps failing in the same way.
use crate::case::*;
use crate::gen;
use crate::props;
use crate::rng::Rng;
use crate::runner::{self, Run};
use crate::sched::Plan;
use adapter::Op;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

pub struct Min {
    class: String,
    until: Instant,
    pub tried: u64,
    rng: Rng,
    cache: BTreeMap<String, Result<(String, u64), Violation>>,
}

impl Min {
    fn expect(&mut self, c: &Case) -> Result<Vec<(String, u64)>, Violation> {
        let mut e = vec![(String::new(), 0); c.pool.len()];
        for o in runner::used_ops(c) {
            let i = o as usize % c.pool.len().max(1);
            let key = format!("{:?}", c.pool[i]);
            if !self.cache.contains_key(&key) {
                let r = runner::expectations(&c.prop, std::slice::from_ref(&c.pool[i])).pop().unwrap();
                self.cache.insert(key.clone(), r);
            }
            e[i] = self.cache[&key].clone()?;
        }
        Ok(e)
    }
    fn go(&mut self, c: &Case) -> Run {
        self.tried += 1;
        match self.expect(c) {
            Ok(e) => runner::run(c, &e, false),
            Err(v) => Run { violations: vec![v], ..Run::default() },
        }
    }
    fn over(&self) -> bool {
        Instant::now() > self.until
    }
    fn fails(&mut self, c: &Case) -> Option<Run> {
        if self.over() {
            return None;
        }
        let r = self.go(c);
        r.violations.iter().any(|v| v.class == self.class).then_some(r)
    }
    /// the candidate fails as it is, or under some other schedule
    fn keep(&mut self, c: &Case) -> Option<Case> {
        if self.fails(c).is_some() {
            return Some(c.clone());
        }
        if !c.phases.iter().any(|p| p.threads && p.clients.len() > 1) {
            return None;
        }
        for _ in 0..8 {
            let mut d = c.clone();
            for p in &mut d.phases {
                if p.threads {
                    p.plan = props::rand_plan(&mut self.rng);
                    let nt = p.clients.len();
                    if nt > 0 {
                        p.first = self.rng.us(nt);
                    }
                }
            }
            if let Some(r) = self.fails(&d) {
                return Some(self.listed(&d, &r).unwrap_or(d));
            }
        }
        None
    }
    /// the same case with its schedule written out
    fn listed(&mut self, c: &Case, r: &Run) -> Option<Case> {
        let mut d = c.clone();
        for (p, t) in d.phases.iter_mut().zip(&r.traces) {
            if p.threads {
                p.plan = Plan::List(t.clone());
            }
        }
        self.fails(&d).map(|_| d)
    }
}

fn compact(c: &Case) -> Case {
    let used: Vec<u32> = runner::used_ops(c).into_iter().collect();
    let n = c.pool.len().max(1) as u32;
    let mut map: BTreeMap<u32, u32> = BTreeMap::new();
    let mut pool: Vec<Op> = vec![];
    for o in used {
        let op = c.pool[(o % n) as usize].clone();
        let i = pool.iter().position(|x| *x == op).unwrap_or_else(|| {
            pool.push(op);
            pool.len() - 1
        });
        map.insert(o, i as u32);
    }
    let mut d = c.clone();
    d.pool = pool;
    let fix = |a: &mut Act| {
        if let Act::Reenter(v) = a {
            v.iter_mut().for_each(|o| *o = map[o])
        }
    };
    for p in &mut d.phases {
        for st in p.clients.iter_mut().flatten() {
            match st {
                Step::Call(o) | Step::AtExit { o, .. } => *o = map[o],
                Step::Append { sink: x, .. }
                | Step::ReadAll { src: x }
                | Step::Damage { src: x, .. }
                | Step::Garbage { src: x, .. }
                | Step::Sink { sink: x, .. } => x.acts.values_mut().for_each(fix),
                Step::Ser { act, .. } => fix(act),
                Step::Deliver { act: Some(a), .. } => fix(a),
                _ => {}
            }
        }
    }
    d
}

/// removes chunks of a list while `try_` accepts
fn ddmin<T: Clone>(m: &mut Min, v: &[T], mut try_: impl FnMut(&mut Min, &[T]) -> bool) -> Vec<T> {
    let mut cur = v.to_vec();
    let mut chunk = cur.len().div_ceil(2).max(1);
    while !cur.is_empty() {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() {
            if m.over() {
                return cur;
            }
            let mut t = cur.clone();
            t.drain(i..(i + chunk).min(cur.len()));
            if try_(m, &t) {
                cur = t;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 {
            if !any {
                break;
            }
        } else {
            chunk = chunk.div_ceil(2);
        }
    }
    cur
}

pub fn minimize(c: &Case, r: &Run, secs: u64) -> (Case, Run, u64) {
    let class = r.violations[0].class.clone();
    let mut m = Min {
        class,
        until: Instant::now() + Duration::from_secs(secs),
        tried: 0,
        rng: Rng::new(c.seed ^ 0x4d49),
        cache: BTreeMap::new(),
    };
    let mut best = c.clone();
    let d = compact(&best);
    if m.fails(&d).is_some() {
        best = d;
    }
    if let Some(d) = m.listed(&best.clone(), r) {
        best = d;
    }
    // which client and step failed: nothing after it is needed
    let before = |c: &Case| serde_json::to_string(c).unwrap();
    loop {
        let was = before(&best);
        // whole phases
        let mut i = 0;
        while best.phases.len() > 1 && i < best.phases.len() {
            let mut d = best.clone();
            d.phases.remove(i);
            match m.keep(&d) {
                Some(d) => best = d,
                None => i += 1,
            }
        }
        for p in 0..best.phases.len() {
            // whole clients
            for cl in 0..best.phases[p].clients.len() {
                if best.phases[p].clients[cl].is_empty() {
                    continue;
                }
                let mut d = best.clone();
                d.phases[p].clients[cl].clear();
                if let Some(d) = m.keep(&d) {
                    best = d;
                }
            }
            // trailing clients that do nothing
            while best.phases[p].clients.len() > 1 && best.phases[p].clients.last().unwrap().is_empty() {
                let mut d = best.clone();
                d.phases[p].clients.pop();
                let n = d.phases[p].clients.len();
                d.phases[p].first = d.phases[p].first.min(n - 1);
                match m.keep(&d) {
                    Some(d) => best = d,
                    None => break,
                }
            }
            if best.phases[p].threads {
                let mut d = best.clone();
                d.phases[p].threads = false;
                d.phases[p].plan = Plan::default();
                d.phases[p].freeze.clear();
                if m.fails(&d).is_some() {
                    best = d;
                }
            }
            for cl in 0..best.phases[p].clients.len() {
                let steps = best.phases[p].clients[cl].clone();
                ddmin(&mut m, &steps, |m, t| {
                    let mut d = best.clone();
                    d.phases[p].clients[cl] = t.to_vec();
                    match m.keep(&d) {
                        Some(d) => {
                            best = d;
                            true
                        }
                        None => false,
                    }
                });
            }
            if let Plan::List(l) = best.phases[p].plan.clone() {
                let l2 = ddmin(&mut m, &l, |m, t| {
                    let mut d = best.clone();
                    d.phases[p].plan = Plan::List(t.to_vec());
                    m.fails(&d).is_some()
                });
                best.phases[p].plan = Plan::List(l2);
            }
            let fr = best.phases[p].freeze.clone();
            let fr = ddmin(&mut m, &fr, |m, t| {
                let mut d = best.clone();
                d.phases[p].freeze = t.to_vec();
                m.fails(&d).is_some()
            });
            best.phases[p].freeze = fr;
            let simpler: [fn(&mut Phase); 8] = [
                |p| p.old = false,
                |p| p.heap = 0,
                |p| p.stack = 0,
                |p| p.place = 0,
                |p| p.ambient = None,
                |p| p.fate.clear(),
                |p| p.first = 0,
                |p| p.fate = vec![Fate::Kept],
            ];
            for f in simpler {
                let mut d = best.clone();
                f(&mut d.phases[p]);
                if d != best && m.fails(&d).is_some() {
                    best = d;
                }
            }
            // inside steps: faults, damage, values
            for cl in 0..best.phases[p].clients.len() {
                for st in 0..best.phases[p].clients[cl].len() {
                    'again: loop {
                        for cand in simpler_steps(&best.phases[p].clients[cl][st]) {
                            let mut d = best.clone();
                            d.phases[p].clients[cl][st] = cand;
                            if d != best && m.fails(&d).is_some() {
                                best = d;
                                continue 'again;
                            }
                        }
                        break;
                    }
                }
            }
        }
        best = compact(&best);
        // texts of calls: drop words, then characters
        for k in 0..best.pool.len() {
            let words: Vec<String> = best.pool[k].s.split(' ').map(|x| x.to_string()).collect();
            if words.len() > 1 {
                let w = ddmin(&mut m, &words, |m, t| {
                    let mut d = best.clone();
                    d.pool[k].s = t.join(" ");
                    m.fails(&d).is_some()
                });
                best.pool[k].s = w.join(" ");
            }
        }
        if before(&best) == was || m.over() {
            break;
        }
    }
    m.until = Instant::now() + Duration::from_secs(3600);
    let r = m.go(&best);
    let n = m.tried;
    if r.violations.is_empty() {
        let r = m.go(c);
        return (c.clone(), r, n);
    }
    (best, r, n)
}

fn simpler_script(s: &Script) -> Vec<Script> {
    let mut v = vec![];
    if *s != Script::default() {
        v.push(Script::default());
        v.push(Script { chunk: 0, ..s.clone() });
        for k in s.acts.keys() {
            let mut t = s.clone();
            t.acts.remove(k);
            v.push(t);
            v.push(Script { chunk: 0, acts: [(*k, s.acts[k].clone())].into() });
        }
    }
    v
}
fn simpler_vals(v: &VSpec) -> Vec<VSpec> {
    let mut out = vec![];
    for i in 0..v.n.len() {
        if v.n[i] != 0 {
            for x in [0, v.n[i] / 1_000_000, v.n[i] / 1000, v.n[i] - v.n[i] % 1_000_000, v.n[i] / 2] {
                let mut w = v.clone();
                w.n[i] = x;
                // what is stored must stay a value (an infinity has no half)
                if crate::exec::in_range(&w.build()).is_ok() {
                    out.push(w);
                }
            }
        }
    }
    out
}
fn simpler_steps(s: &Step) -> Vec<Step> {
    let mut out = vec![];
    match s {
        Step::Append { v, f, sink } => {
            out.extend(simpler_script(sink).into_iter().map(|sink| Step::Append { v: v.clone(), f: *f, sink }));
            out.extend(simpler_vals(v).into_iter().map(|v| Step::Append { v, f: *f, sink: sink.clone() }));
        }
        Step::ReadAll { src } => out.extend(simpler_script(src).into_iter().map(|src| Step::ReadAll { src })),
        Step::Damage { v, f, d, src, slice } => {
            for i in 0..d.len() {
                let mut e = d.clone();
                e.remove(i);
                out.push(Step::Damage { v: v.clone(), f: *f, d: e, src: src.clone(), slice: *slice });
            }
            out.extend(simpler_script(src).into_iter().map(|src| Step::Damage { v: v.clone(), f: *f, d: d.clone(), src, slice: *slice }));
            out.extend(simpler_vals(v).into_iter().map(|v| Step::Damage { v, f: *f, d: d.clone(), src: src.clone(), slice: *slice }));
        }
        Step::Garbage { ty, f, bytes, src, slice } => {
            let g = |bytes: Vec<u8>, src: Script| Step::Garbage { ty: *ty, f: *f, bytes, src, slice: *slice };
            out.extend(simpler_script(src).into_iter().map(|src| g(bytes.clone(), src)));
            let mut n = bytes.len() / 2;
            while n > 0 {
                for i in (0..bytes.len()).step_by(n).take(24) {
                    let mut b = bytes.clone();
                    b.drain(i..(i + n).min(bytes.len()));
                    out.push(g(b, src.clone()));
                }
                n /= 2;
            }
        }
        Step::Sink { v, f, sink } => {
            out.extend(simpler_script(sink).into_iter().map(|sink| Step::Sink { v: v.clone(), f: *f, sink }));
            out.extend(simpler_vals(v).into_iter().map(|v| Step::Sink { v, f: *f, sink: sink.clone() }));
        }
        Step::Ser { v, human, at, act } => {
            out.extend(simpler_vals(v).into_iter().map(|v| Step::Ser { v, human: *human, at: *at, act: act.clone() }));
        }
        Step::Deliver { ty, d, human, at, act } => {
            if act.is_some() {
                out.push(Step::Deliver { ty: *ty, d: d.clone(), human: *human, at: *at, act: None });
            }
        }
        Step::Churn { seed, n, kinds } => {
            if *n > 4000 {
                out.push(Step::Churn { seed: *seed, n: n / 2, kinds: *kinds });
            }
        }
        Step::Repl(sp) => out.extend(simpler_machine(sp).into_iter().map(Step::Repl)),
        Step::Index(sp) => {
            if sp.nodes > 1 {
                out.push(Step::Index(crate::repl::IxSpec { nodes: 1, ..sp.clone() }));
            }
            out.extend(shorter(&sp.ops).into_iter().map(|ops| Step::Index(crate::repl::IxSpec { ops, ..sp.clone() })));
            out.extend(shorter(&sp.items).into_iter().map(|items| Step::Index(crate::repl::IxSpec { items, ..sp.clone() })));
            for i in 0..sp.items.len() {
                for x in simpler_ints(&sp.items[i]) {
                    let mut t = sp.clone();
                    t.items[i] = x;
                    out.push(Step::Index(t));
                }
            }
        }
        _ => {}
    }
    out
}
/// the list without one of its chunks, big ones first
fn shorter<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut n = v.len();
    while n > 0 {
        for i in (0..v.len()).step_by(n) {
            let mut t = v.to_vec();
            t.drain(i..(i + n).min(v.len()));
            out.push(t);
        }
        n /= 2;
    }
    out
}
fn simpler_ints(v: &[i64]) -> Vec<Vec<i64>> {
    let mut out = vec![];
    for i in 0..v.len() {
        for x in [0, v[i] / 1_000_000, v[i] / 1000, v[i] - v[i] % 1_000_000, v[i] / 2, v[i] - v[i].signum()] {
            if x != v[i] && x.unsigned_abs() <= v[i].unsigned_abs() {
                let mut w = v.to_vec();
                w[i] = x;
                out.push(w);
            }
        }
    }
    out
}
fn simpler_machine(sp: &crate::repl::Spec) -> Vec<crate::repl::Spec> {
    use crate::repl::{Arg, Slot, Spec};
    let mut out = vec![];
    if !sp.evs.is_empty() {
        out.push(Spec { evs: vec![], ..sp.clone() });
    }
    if sp.nodes > 1 {
        out.push(Spec { nodes: 1, ..sp.clone() });
    }
    out.extend(shorter(&sp.cmds).into_iter().map(|cmds| Spec { cmds, ..sp.clone() }));
    out.extend(shorter(&sp.evs).into_iter().map(|evs| Spec { evs, ..sp.clone() }));
    for i in 0..sp.cmds.len() {
        for (j, a) in sp.cmds[i].a.iter().enumerate() {
            if sp.cmds[i].want.is_some() {
                continue;
            }
            // numbers given as bits of a float stay as they are
            let fl = matches!(crate::repl::sig(sp.cmds[i].k).get(j), Some(Slot::N(_)))
                && matches!(sp.cmds[i].k, adapter::K::IvMul | adapter::K::IvDiv);
            match a {
                Arg::L(v) if !fl => {
                    for x in simpler_ints(v) {
                        let ok = match crate::repl::sig(sp.cmds[i].k).get(j) {
                            Some(Slot::D) => (gen::DATE_MIN..gen::DATE_END).contains(&x[0]),
                            Some(Slot::T) => (0..=gen::DAY).contains(&x[0]),
                            Some(Slot::S) => (gen::TS_MIN..gen::TS_END).contains(&x[0]),
                            _ => true,
                        };
                        if !ok {
                            continue;
                        }
                        let mut t = sp.clone();
                        t.cmds[i].a[j] = Arg::L(x);
                        out.push(t);
                    }
                }
                Arg::Now | Arg::R(_) => {
                    let n = if crate::repl::sig(sp.cmds[i].k)[j] == Slot::I { 3 } else { 1 };
                    let mut t = sp.clone();
                    t.cmds[i].a[j] = Arg::L(vec![0; n]);
                    out.push(t);
                }
                _ => {}
            }
        }
    }
    out
}
