//! Command line, worker processes, evidence.
use crate::case::*;
use crate::props::{self, Prop, PROPS};
use crate::rng::{fnv, mix, Rng};
use crate::runner::{self, Run};
use crate::{exec, gen, hooks, minimize};
use adapter::{Op, K};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    violation: Violation,
    /// hash of everything the run did: schedule, results, bytes
    log: u64,
    verif_seed: u64,
    batch: u64,
    run: u64,
    minimiser_runs: u64,
    case: Case,
    /// the case as it was found, if shrinking changed it
    #[serde(default)]
    note: String,
}

struct Known {
    property: String,
    class: String,
    contains: String,
    what: String,
}
/// lines `finding: property=<id> class=<class> contains="<text of the violation>" <what fails>`
fn known(root: &Path) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default().lines() {
        let Some(l) = l.strip_prefix("finding: ") else { continue };
        let field = |k: &str| l.split(k).nth(1).and_then(|x| x.split(' ').next()).unwrap_or("").to_string();
        let contains = l.split("contains=\"").nth(1).and_then(|x| x.split("\" ").next()).unwrap_or("\0").to_string();
        let what = l.rsplit("\" ").next().unwrap_or("").to_string();
        v.push(Known { property: field("property="), class: field("class="), contains, what });
    }
    v
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    no_aslr();
    hooks::globals_init();
    hooks::cov_init();
    exec::panic_hook();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("replay") => {
            runner::shm_init();
            replay(&a)
        }
        Some("hash") => hash(&a),
        Some("show") => show(&a),
        Some("harvest") => harvest(&a),
        _ => {
            eprintln!("usage: pgdst check <property> [--tier quick|thorough] [--seed N] [--workers N] [--root DIR]\n       pgdst replay <file>\n       pgdst hash <property> --batches N\n       pgdst show <property> --batch B --run R");
            2
        }
    };
    std::process::exit(code);
}

/// Addresses are the same in every process, where the kernel lets us ask for that.
fn no_aslr() {
    const FLAG: u64 = 0x0040000;
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && (p as u64 & FLAG) == 0 && std::env::var_os("PGDST_NOASLR").is_none() {
            if libc::personality(p as u64 | FLAG) >= 0 {
                std::env::set_var("PGDST_NOASLR", "1");
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
                eprintln!("re-exec: {e}");
            }
        }
    }
}

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2)
    })
}

#[derive(Default, Serialize, Deserialize)]
struct Stats {
    batches: u64,
    runs: u64,
    steps: u64,
    sim_ns: u64,
    pristine_calls: u64,
    counts: BTreeMap<String, u64>,
    cases: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    schedules: BTreeSet<u64>,
    logs: BTreeSet<u64>,
    known: BTreeMap<String, u64>,
    unreproduced: u64,
    samples: Vec<String>,
    found: Vec<(u64, u64, Case, Vec<Violation>)>,
}

fn nontrivial(p: &Prop, c: &Case, r: &Run) -> bool {
    let g = |k: &str| r.counts.get(k).copied().unwrap_or(0);
    let any = |pre: &str| r.counts.iter().any(|(k, v)| k.starts_with(pre) && *v > 0);
    match p.id {
        "C01" | "C05" => runner::used_ops(c).len() > 1,
        "C02" => g("sched.preemptions") > 0,
        "C03" => g("sched.stalled_threads") > 0,
        "C04" => g("memory.filled_blocks") > 0 || c.phases.iter().any(|p| p.stack != 0),
        "C06" => g("records_read") + g("records_recovered") > 0,
        "C13" | "C19" | "C20" => g("values_read") + g("replies_judged") > 0,
        "C14" => g("index_checks") > 0,
        "C15" | "C16" | "C17" | "C18" => g("replies_judged") > 0,
        "C12" => c.phases.iter().any(|p| p.old) && c.phases.iter().any(|p| !p.old) && g("records_read") + g("records_recovered") > 0,
        "C07" => g("damaged_decodes") > 0,
        "C08" => any("write.err") || any("write.zero") || any("format.err"),
        "C09" => g("scripted_decodes") > 0,
        "C10" => g("nested_calls") + g("calls_at_thread_exit") > 0 || g("format.caller_unwinds") + g("write.caller_unwinds") > 0,
        _ => g("churn_calls") > 0,
    }
}

/// pool and expectations of one batch; calls that do not return in a fresh process are handed back
fn batch(p: &Prop, seed: u64) -> (Vec<Op>, Vec<(String, u64)>, Vec<(Op, Violation)>) {
    if p.pool == 0 {
        return (vec![], vec![], vec![]);
    }
    let mut r = Rng::new(seed);
    let pool = gen::pool(&mut r, p.pool);
    let safe = Op { k: K::DateYmd, s: String::new(), n: vec![2001, 2, 3], e: vec![] };
    let mut bad = vec![];
    let e = runner::expectations(p.id, &pool);
    let (mut pool2, mut e2) = (vec![], vec![]);
    for (o, e) in pool.into_iter().zip(e) {
        match e {
            Ok(e) => {
                pool2.push(o);
                e2.push(e)
            }
            Err(v) => bad.push((o, v)),
        }
    }
    if pool2.is_empty() {
        e2 = runner::expectations(p.id, std::slice::from_ref(&safe)).into_iter().filter_map(|x| x.ok()).collect();
        pool2.push(safe);
    }
    (pool2, e2, bad)
}
fn batch_seed(p: &Prop, seed: u64, b: u64) -> u64 {
    mix(mix(seed) ^ fnv(0, p.id.as_bytes()) ^ mix(b.wrapping_add(77)))
}

struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
}

fn work(p: &'static Prop, seed: u64, long: bool, sh: &Shared, nb: u64, nr: u64, until: Instant, known: &[Known]) -> Stats {
    let mut st = Stats::default();
    loop {
        if sh.stop.load(SeqCst) != 0 || Instant::now() > until {
            break;
        }
        let b = sh.next.fetch_add(1, SeqCst);
        if b >= nb {
            break;
        }
        let bs = batch_seed(p, seed, b);
        let (pool, expect, bad) = batch(p, bs);
        st.batches += 1;
        st.pristine_calls += expect.len() as u64;
        let record = |st: &mut Stats, run: u64, c: Case, v: Vec<Violation>| {
            let unknown: Vec<Violation> = v
                .into_iter()
                .filter(|v| {
                    let k = known.iter().find(|k| k.property == p.id && k.class == v.class && v.detail.contains(&k.contains));
                    if let Some(k) = k {
                        *st.known.entry(k.what.clone()).or_default() += 1;
                    }
                    k.is_none()
                })
                .collect();
            if !unknown.is_empty() {
                st.found.push((b, run, c, unknown));
                sh.stop.store(1, SeqCst);
                return true;
            }
            false
        };
        if p.id == "C03" || p.id == "C01" {
            // a call that does not come back at all, in a fresh process with nothing else going on
            if let Some((op, v)) = bad.into_iter().find(|(_, v)| p.id == "C03" || v.class != "no-progress") {
                let ph = Phase { clients: vec![vec![Step::Call(0)]], ..Phase::default() };
                record(&mut st, 0, Case { prop: p.id.into(), seed: bs, pool: vec![op], phases: vec![ph] }, vec![v]);
            }
        }
        for run in 0..nr {
            let c = props::case(p, mix(bs ^ mix(run + 1)), b, run, long, &pool, &expect);
            let r = runner::run(&c, &expect, false);
            st.runs += 1;
            st.steps += r.steps;
            st.sim_ns += r.sim_ns;
            for (k, n) in &r.counts {
                *st.counts.entry(k.clone()).or_default() += n;
            }
            let h = fnv(0, serde_json::to_string(&c.phases).unwrap().as_bytes());
            let h = fnv(h, &bs.to_le_bytes());
            let fresh = st.cases.insert(h);
            if r.ihash != 0 && c.phases.iter().any(|p| p.threads) {
                st.schedules.insert(r.ihash);
            }
            st.logs.insert(r.log);
            if fresh && nontrivial(p, &c, &r) {
                st.nontrivial.insert(h);
                if st.samples.len() < 2 {
                    let mut s = describe(&c);
                    if s.len() > 1500 {
                        let mut i = 1500;
                        while !s.is_char_boundary(i) {
                            i -= 1;
                        }
                        s.truncate(i);
                        s.push('…');
                    }
                    st.samples.push(s);
                }
            }
            if !r.violations.is_empty() && record(&mut st, run, c, r.violations.clone()) {
                break;
            }
        }
    }
    st
}

/// a case with its calls spelled out
fn describe(c: &Case) -> String {
    let mut s = format!("seed {:#x}: ", c.seed);
    for (i, p) in c.phases.iter().enumerate() {
        if i > 0 {
            s += &format!(" | crash, un-synced writes {:?} | ", c.phases[i - 1].fate);
        }
        if p.threads {
            s += &format!("[threads, plan {}, stalls {:?}] ", serde_json::to_string(&p.plan).unwrap(), p.freeze);
        }
        if p.heap != 0 || p.stack != 0 {
            s += &format!("[heap pattern {:#x}, stack pattern {:#x}] ", p.heap, p.stack);
        }
        if p.place != 0 {
            s += &format!("[addresses {:#x}] ", p.place);
        }
        if let Some(a) = p.ambient {
            s += &format!("[wild world {a:#x}] ");
        }
        for (k, cl) in p.clients.iter().enumerate() {
            s += &format!("client {k}: ");
            for st in cl.iter().take(12) {
                match st {
                    Step::Call(o) => s += &exec::show_op(&c.pool[*o as usize % c.pool.len()]),
                    Step::AtExit { o, late } => {
                        s += &format!("at thread exit (late {late}): {}", exec::show_op(&c.pool[*o as usize % c.pool.len()]))
                    }
                    st => s += &serde_json::to_string(st).unwrap(),
                }
                s += "; ";
            }
            if cl.len() > 12 {
                s += &format!("… {} steps in all; ", cl.len());
            }
        }
    }
    s
}

fn check(a: &[String]) -> i32 {
    let start = Instant::now();
    let p = prop(a.get(2).map(|s| s.as_str()).unwrap_or(""));
    let tier = arg(a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let long = tier == "thorough";
    let seed: u64 =
        arg(a, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let workers: u64 = arg(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16)
    });
    let root = PathBuf::from(arg(a, "--root").unwrap_or_else(|| "/verif".into()));
    let (nb, nr) = if long { p.thorough } else { p.quick };
    let nb = arg(a, "--batches").and_then(|s| s.parse().ok()).unwrap_or(nb);
    let nr = arg(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(nr);
    let budget: u64 = arg(a, "--seconds").and_then(|s| s.parse().ok()).unwrap_or(if long { 7200 } else { 240 });
    println!("pgdst {} tier={tier} VERIF_SEED={seed} batches={nb} runs/batch={nr} workers={workers}", p.id);
    let known = known(&root);
    let until = start + Duration::from_secs(budget);
    let scratch = std::env::temp_dir().join(format!("pgdst-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let sh: &Shared = unsafe {
        &*(libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
            as *const Shared)
    };
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // simulated threads hand over to one another constantly: one processor is quicker
                let mut all: libc::cpu_set_t = std::mem::zeroed();
                libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all);
                let ok: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &all)).collect();
                if !ok.is_empty() {
                    let mut one: libc::cpu_set_t = std::mem::zeroed();
                    libc::CPU_SET(ok[w as usize % ok.len()], &mut one);
                    libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
                }
            }
            runner::shm_init();
            let st = work(p, seed, long, sh, nb, nr, until, &known);
            std::fs::write(scratch.join(format!("{w}.json")), serde_json::to_vec(&st).unwrap()).unwrap();
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut ok = true;
    for pid in pids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        ok &= st == 0;
    }
    let mut all = Stats::default();
    for w in 0..workers {
        let Ok(b) = std::fs::read(scratch.join(format!("{w}.json"))) else {
            ok = false;
            continue;
        };
        let s: Stats = serde_json::from_slice(&b).expect("worker result");
        all.batches += s.batches;
        all.runs += s.runs;
        all.steps += s.steps;
        all.sim_ns += s.sim_ns;
        all.pristine_calls += s.pristine_calls;
        for (k, n) in s.counts {
            *all.counts.entry(k).or_default() += n;
        }
        for (k, n) in s.known {
            *all.known.entry(k).or_default() += n;
        }
        all.cases.extend(s.cases);
        all.nontrivial.extend(s.nontrivial);
        all.schedules.extend(s.schedules);
        all.logs.extend(s.logs);
        if all.samples.len() < 3 {
            all.samples.extend(s.samples);
        }
        all.found.extend(s.found);
    }
    for f in std::fs::read_dir(&scratch).into_iter().flatten().flatten() {
        let _ = std::fs::remove_file(f.path());
    }
    let _ = std::fs::remove_dir(&scratch);
    if !ok {
        eprintln!("harness error: a worker process died");
        return 2;
    }
    runner::shm_init();
    for k in &known {
        if k.property == p.id {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    all.found.sort_by_key(|x| (x.0, x.1));
    let mut reported = 0u64;
    let mut unrep = 0u64;
    for (b, run, c, v) in all.found.iter().take(6) {
        println!("candidate: batch {b} run {run} [{}] {}", v[0].class, v[0].detail);
        let first = runner::run_alone(c, false);
        if first.violations.is_empty() {
            eprintln!("  did not happen again; not reported");
            unrep += 1;
            continue;
        }
        let (mc, mr, tried) = minimize::minimize(c, &first, if long { 120 } else { 40 });
        let mut chosen = None;
        // what a broken library reads from memory nobody wrote can differ between processes: a case
        // that fails every time, but not with the same bytes, is reported as exactly that
        let mut unstable = None;
        for (case, run_) in [(&mc, &mr), (c, &first)] {
            if run_.violations.is_empty() {
                continue;
            }
            let dir = root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{b}-{run}.json", p.id, seed));
            let rep = Replay {
                property: p.id.into(),
                violation: run_.violations[0].clone(),
                log: run_.log,
                verif_seed: seed,
                batch: *b,
                run: *run,
                minimiser_runs: tried,
                case: case.clone(),
                note: describe(case),
            };
            std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).expect("replay file");
            let once = || {
                let out = std::process::Command::new("/proc/self/exe").arg("replay").arg(&path).output().expect("replay");
                let text = String::from_utf8_lossy(&out.stdout).into_owned();
                let failed = out.status.code() == Some(1);
                let first = text.lines().find(|l| !l.starts_with("VIOLATION")).unwrap_or("").to_string();
                (failed, failed && text.contains("reproduced exactly"), first)
            };
            let again = [once(), once(), once()];
            if again.iter().all(|x| x.1) {
                chosen = Some((path, rep));
                break;
            }
            eprintln!("  replay of {} differs: {:?}", path.display(), again);
            if again.iter().all(|x| x.0) && unstable.is_none() {
                unstable = Some((path, rep));
            }
        }
        if let (None, Some((path, mut rep))) = (&chosen, unstable) {
            rep.note += " (fails in every process, with results that differ: memory that nobody wrote enters them)";
            std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).expect("replay file");
            chosen = Some((path, rep));
        }
        match chosen {
            Some((path, rep)) => {
                println!("  after {tried} shrinking runs: {}", rep.note);
                println!("  [{}] {}", rep.violation.class, rep.violation.detail);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                reported += 1;
                break;
            }
            None => unrep += 1,
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let h = |n: u64| (n as f64 * 3600.0 / wall.max(0.001)) as u64;
    let faults: BTreeMap<&String, &u64> = all
        .counts
        .iter()
        .filter(|(k, _)| k.contains('.') )
        .collect();
    let other: BTreeMap<&String, &u64> = all.counts.iter().filter(|(k, _)| !k.contains('.')).collect();
    let ev = serde_json::json!({
        "property": p.id, "tier": if long { "thorough" } else { "quick" }, "seed": seed, "level": p.level,
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": all.nontrivial.len(),
            "rule": format!("{}; distinct by hash of the whole case. Cases are drawn from VERIF_SEED, batch and run number.", p.rule),
            "samples": all.samples.iter().take(4).collect::<Vec<_>>(),
            "batches": all.batches,
            "runs_and_seeds_per_hour": h(all.runs),
            "simulated_seconds": all.sim_ns as f64 / 1e9,
            "yield_points_passed": all.steps,
            "pristine_reference_calls": all.pristine_calls,
            "faults_and_events": faults,
            "work_done": other,
            "distinct_schedules": all.schedules.len(),
            "distinct_event_logs": all.logs.len(),
            "code_edges_reached": hooks::cov_count(),
            "code_edges_total": unsafe { hooks::NGUARDS },
            "stopped_by_time_limit": all.batches < nb && all.found.is_empty(),
            "real_components": "pgdatetime (whole crate, serde feature), serde, serde_json, bincode, ciborium, Rust std, glibc allocator",
            "stubbed_components": "thread scheduling, clocks, sleep, futex waiting, randomness, process id, environment and file opening as seen from inside a call; disk, readers and writers; callers",
            "unreproduced_candidates": unrep,
            "known_findings_seen": all.known,
        },
        "assumptions": [
            "calls are preempted at basic-block edges, loads and stores of instrumented code (pgdatetime and the generic code it instantiates), allocations, blocking system calls and I/O callbacks; precompiled std code runs atomically between them",
            "one thread runs at a time, so effects of weak memory ordering are not simulated",
            "built with debug assertions and overflow checks, as the repository's own tests are"
        ],
        "wall_s": wall, "violations": reported,
    });
    let evp = PathBuf::from(arg(a, "--evidence").unwrap_or_else(|| root.join("evidence").join(format!("{}.json", p.id)).display().to_string()));
    if let Some(d) = evp.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&evp, serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{} runs in {} batches, {} distinct non-trivial, {} schedules, {} of {} edges, {:.1} s",
        all.runs,
        all.batches,
        all.nontrivial.len(),
        all.schedules.len(),
        hooks::cov_count(),
        unsafe { hooks::NGUARDS },
        wall
    );
    if reported > 0 {
        1
    } else if unrep > 0 {
        eprintln!("{unrep} candidates did not reproduce; nothing is claimed from them");
        0
    } else {
        0
    }
}

fn replay(a: &[String]) -> i32 {
    let path = a.get(2).expect("file");
    let rep: Replay = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay file");
    let r = runner::run_alone(&rep.case, true);
    if a.iter().any(|x| x == "-v") {
        println!("{}", describe(&rep.case));
        for l in &r.results {
            println!("{l}");
        }
    }
    // the log hash is of a run that keeps nothing; keeping does not change it
    match r.violations.first() {
        Some(v) => {
            println!("[{}] {}", v.class, v.detail);
            if v.class == rep.violation.class && r.log == rep.log {
                println!("reproduced exactly (log {:#x})", r.log);
            } else {
                println!("fails, but not as recorded: recorded [{}] log {:#x}, now log {:#x}", rep.violation.class, rep.log, r.log);
            }
            println!("VIOLATION property={} replay={path}", rep.property);
            1
        }
        None => {
            println!("did not fail");
            0
        }
    }
}

/// event-log hashes of many runs, for comparing executions of the same seeds
fn hash(a: &[String]) -> i32 {
    let p = prop(a.get(2).map(|s| s.as_str()).unwrap_or(""));
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let from: u64 = arg(a, "--from").and_then(|s| s.parse().ok()).unwrap_or(0);
    let n: u64 = arg(a, "--batches").and_then(|s| s.parse().ok()).unwrap_or(4);
    let nr: u64 = arg(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(p.quick.1);
    runner::shm_init();
    for b in from..from + n {
        let bs = batch_seed(p, seed, b);
        let (pool, expect, _) = batch(p, bs);
        let eh = fnv(0, format!("{:?}", expect).as_bytes());
        println!("{} batch {b} pool {eh:016x}", p.id);
        for run in 0..nr {
            let c = props::case(p, mix(bs ^ mix(run + 1)), b, run, false, &pool, &expect);
            let r = runner::run(&c, &expect, false);
            println!("{} {b} {run} {:016x} {:016x} {} {}", p.id, r.log, r.ihash, r.steps, r.violations.len());
        }
    }
    0
}

fn show(a: &[String]) -> i32 {
    let p = prop(a.get(2).map(|s| s.as_str()).unwrap_or(""));
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let b: u64 = arg(a, "--batch").and_then(|s| s.parse().ok()).unwrap_or(0);
    let run: u64 = arg(a, "--run").and_then(|s| s.parse().ok()).unwrap_or(0);
    runner::shm_init();
    let bs = batch_seed(p, seed, b);
    let (pool, expect, bad) = batch(p, bs);
    for (o, v) in bad {
        println!("excluded: {} [{}] {}", exec::show_op(&o), v.class, v.detail);
    }
    let c = props::case(p, mix(bs ^ mix(run + 1)), b, run, false, &pool, &expect);
    println!("{}", describe(&c));
    let r = runner::run(&c, &expect, true);
    for l in &r.results {
        println!("{l}");
    }
    println!("{:?}\n{:?}", r.counts, r.violations);
    0
}

/// Collects texts that reach different parts of the parsers, for the committed corpus. Not part of
/// any check: the checks only read the corpus.
fn harvest(a: &[String]) -> i32 {
    let secs: u64 = arg(a, "--seconds").and_then(|s| s.parse().ok()).unwrap_or(60);
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    runner::shm_init();
    let mut r = Rng::new(seed);
    let kinds = [K::DateParse, K::TimeParse, K::TsParse, K::IvParse];
    let mut corpus: Vec<(usize, Op)> = vec![];
    let mut seen = vec![0u8; hooks::MAPSZ];
    let until = Instant::now() + Duration::from_secs(secs);
    while Instant::now() < until {
        let mut ops = vec![];
        for _ in 0..400 {
            let k = r.us(4);
            let mut o = gen::op(&mut r, kinds[k]);
            if !corpus.is_empty() && r.chance(2, 3) {
                let base = corpus[r.us(corpus.len())].1.clone();
                o = if r.chance(1, 2) { gen::mutate(&mut r, &base) } else { base };
                if r.chance(1, 2) {
                    let mut b = o.s.clone().into_bytes();
                    gen::damage(&mut r, &mut b);
                    o.s = String::from_utf8_lossy(&b).into_owned();
                }
                if r.chance(1, 6) {
                    let other = &corpus[r.us(corpus.len())].1.s;
                    o.s = format!("{} {}", o.s, other);
                }
            }
            if o.s.len() <= 160 {
                ops.push(o);
            }
        }
        for (i, s2) in runner::coverage(&ops, &mut seen) {
            let o = ops[i].clone();
            let k = kinds.iter().position(|k| *k == o.k).unwrap_or(0);
            let _ = s2;
            corpus.push((k, o));
        }
    }
    let mut lines: BTreeSet<(usize, String)> = BTreeSet::new();
    for (k, o) in &corpus {
        lines.insert((*k, o.s.clone()));
    }
    for (k, s) in lines {
        println!("{}", serde_json::to_string(&(k, s)).unwrap());
    }
    eprintln!("{} texts, {} edges", corpus.len(), seen.iter().filter(|x| **x != 0).count());
    0
}
