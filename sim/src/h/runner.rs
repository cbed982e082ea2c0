//! Runs plans in forked children, searches over seeds, minimises and reports.
use super::plan::*;
use super::world::{ctx, install_panic_hook, panic_msg, violate};
use super::{gen, s1, s2, s3, s4, s5};
use crate::os::{self, Sim};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

const CPU_LIMIT_S: u64 = 40;

static mut PLAN: Option<Plan> = None;

extern "C" fn sim_main(_: *mut libc::c_void) -> *mut libc::c_void {
    #[allow(static_mut_refs)]
    let plan = unsafe { PLAN.as_ref().unwrap() };
    let r = std::panic::catch_unwind(|| match plan.engine.as_str() {
        "s1" => s1::run(plan),
        "s2" => s2::run(plan),
        "s3" => s3::run(plan),
        "s4" => s4::run(plan),
        _ => s5::run(plan),
    });
    if let Err(p) = r {
        violate(&["*"], "harness-panic", panic_msg(p));
    }
    std::ptr::null_mut()
}

/// in the child: run the plan and return what happened
fn run_here(plan: Plan, trace: bool, full: bool) -> RunResult {
    install_panic_hook();
    let mut s = Sim::new(plan.seed);
    if trace {
        s.trace = Some(vec![]);
        s.full_trace = full;
    }
    s.live = std::env::var_os("BCT_STDERR").is_some();
    s.knobs.p_switch = plan.knobs.switch;
    s.knobs.p_random_pick = plan.knobs.random_pick;
    s.knobs.p_slow_io = plan.knobs.slow_io;
    s.knobs.p_short = plan.knobs.short;
    s.knobs.p_eintr = plan.knobs.eintr;
    s.knobs.p_spurious = plan.knobs.spurious;
    s.segment = plan.param("segment_kib", 64) as usize * 1024;
    s.replay = plan.dev.as_ref().map(|d| d.iter().copied().collect());
    ctx().prop = plan.prop.clone();
    unsafe { PLAN = Some(plan) };
    os::run_sim(s, sim_main);
    let s = os::sim();
    if let Some(a) = &s.abort {
        let class = if a.starts_with("deadlock") {
            "deadlock"
        } else if a.starts_with("no progress") {
            "no-progress"
        } else {
            "step-budget"
        };
        let disk_failed = s.fault_counts.keys().any(|k| k.contains(":EIO") || k.contains("ENOSPC"));
        let (props, class) = if class != "step-budget" && disk_failed && s.log_waiters > 0 {
            ("C18", super::world::SLED_WAIT_KNOWN)
        } else {
            ("*", class)
        };
        let hung = ctx().panics.join("; ");
        ctx().violations.push(Violation {
            props: vec![props.into()],
            class: class.into(),
            detail: format!("{a} {hung}"),
        });
    }
    let c = ctx();
    RunResult {
        violations: std::mem::take(&mut c.violations),
        steps: s.steps,
        decisions: s.decisions,
        switches: s.switches,
        preemptions: s.preemptions,
        threads: s.threads.len() as u64 - 1,
        sim_ns: s.now - 1_000_000_000,
        disk_ops: s.disk_ops,
        hash: s.hash,
        sched_hash: s.sched_hash,
        hist_hash: c.hist,
        faults: s.fault_counts.clone().into_iter().map(|(k, v)| (k.to_string(), v)).collect(),
        probes: std::mem::take(&mut c.probes),
        deviations: std::mem::take(&mut s.deviations),
        trace: s.trace.take().unwrap_or_default(),
        denied: s.denied.iter().cloned().collect(),
        ops_done: c.ops_done,
    }
}

pub struct Child {
    pid: i32,
    pipe: std::fs::File,
    buf: Vec<u8>,
    started: Instant,
    index: u64,
}
fn launch(plan: &Plan, trace: bool, full: bool, cpu: Option<usize>) -> Child {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if let Some(c) = cpu {
                // simulated threads take turns: on one processor that is cheapest
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(c, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: CPU_LIMIT_S + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            // what the code under test prints is not ours
            let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
            if std::env::var_os("BCT_STDERR").is_none() {
                libc::dup2(null, 2);
            }
            libc::dup2(null, 1);
            let r = run_here(plan.clone(), trace, full);
            let j = serde_json::to_vec(&r).unwrap();
            let mut off = 0;
            while off < j.len() {
                let n = os::raw6(libc::SYS_write, fds[1] as i64, j[off..].as_ptr() as i64, (j.len() - off) as i64, 0, 0, 0);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            os::raw6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
            unreachable!();
        }
        libc::close(fds[1]);
        Child { pid, pipe: std::fs::File::from_raw_fd(fds[0]), buf: vec![], started: Instant::now(), index: plan.index }
    }
}
fn finish(mut c: Child, wall_killed: bool) -> RunResult {
    let _ = c.pipe.read_to_end(&mut c.buf);
    let mut st = 0;
    unsafe { libc::waitpid(c.pid, &mut st, 0) };
    if let Ok(r) = serde_json::from_slice::<RunResult>(&c.buf) {
        return r;
    }
    let class = if wall_killed {
        "hang".to_string()
    } else if libc::WIFSIGNALED(st) {
        match libc::WTERMSIG(st) {
            libc::SIGXCPU | libc::SIGKILL => "hang".to_string(),
            s => format!("process died: signal {s}"),
        }
    } else {
        format!("process exited: {}", libc::WEXITSTATUS(st))
    };
    RunResult {
        violations: vec![Violation { props: vec!["*".into()], class: class.clone(), detail: format!("the simulated process did not finish: {class}") }],
        ..Default::default()
    }
}
pub fn exec(plan: &Plan, trace: bool, full: bool) -> RunResult {
    finish(launch(plan, trace, full, None), false)
}

fn cpus(n: usize) -> Vec<usize> {
    let mut set: libc::cpu_set_t = unsafe { std::mem::zeroed() };
    unsafe { libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) };
    let mut v: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| unsafe { libc::CPU_ISSET(*c, &set) }).collect();
    if v.is_empty() {
        v.push(0);
    }
    (0..n).map(|i| v[i % v.len()]).collect()
}

/// Run plans index by index, several at a time; `f` sees the results in completion order and says
/// whether to go on.
pub fn pool(workers: usize, mut next: impl FnMut() -> Option<Plan>, mut f: impl FnMut(Plan, RunResult) -> bool) {
    let mut live: Vec<(Child, Plan, usize)> = vec![];
    let mut free = cpus(workers);
    let mut more = true;
    loop {
        while more && live.len() < workers {
            match next() {
                Some(p) => {
                    let cpu = free.pop().unwrap();
                    live.push((launch(&p, false, false, Some(cpu)), p, cpu))
                }
                None => more = false,
            }
        }
        if live.is_empty() {
            return;
        }
        let mut pf: Vec<libc::pollfd> = live
            .iter()
            .map(|c| libc::pollfd { fd: std::os::fd::AsRawFd::as_raw_fd(&c.0.pipe), events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000) };
        let mut done: Vec<(usize, bool)> = vec![];
        for (i, p) in pf.iter().enumerate() {
            if p.revents != 0 {
                let mut b = [0u8; 65536];
                match live[i].0.pipe.read(&mut b) {
                    Ok(0) | Err(_) => done.push((i, false)),
                    Ok(n) => live[i].0.buf.extend_from_slice(&b[..n]),
                }
            } else if live[i].0.started.elapsed() > Duration::from_secs(240) {
                unsafe { libc::kill(live[i].0.pid, libc::SIGKILL) };
                done.push((i, true));
            }
        }
        for (i, killed) in done.into_iter().rev() {
            let (c, p, cpu) = live.swap_remove(i);
            free.push(cpu);
            debug_assert_eq!(c.index, p.index);
            let r = finish(c, killed);
            if !f(p, r) {
                more = false;
            }
        }
    }
}

fn concerns(v: &Violation, prop: &str) -> bool {
    v.props.iter().any(|p| p == prop || p == "*")
}
fn hit<'a>(r: &'a RunResult, prop: &str, known: &BTreeSet<String>) -> Option<&'a Violation> {
    r.violations.iter().find(|v| concerns(v, prop) && !known.contains(&v.class))
}

// ---------------------------------------------------------------- known findings
#[derive(Deserialize)]
struct Finding {
    property: String,
    #[serde(default)]
    signature: String,
    #[serde(default)]
    what: String,
    #[serde(default)]
    status: String,
}
fn findings(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    t.lines()
        .filter_map(|l| serde_json::from_str::<Finding>(l).ok())
        .filter(|f| f.property == prop && f.status == "known")
        .map(|f| (f.signature, f.what))
        .collect()
}

// ---------------------------------------------------------------- minimisation
fn minimise(plan: &Plan, class: &str, prop: &str, known: &BTreeSet<String>, budget: Duration) -> (Plan, RunResult, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut fails = |p: &Plan| -> Option<RunResult> {
        if t0.elapsed() > budget {
            return None;
        }
        tries += 1;
        let r = exec(p, false, false);
        match hit(&r, prop, known) {
            Some(v) if v.class == class => Some(r),
            _ => None,
        }
    };
    let mut best = plan.clone();
    let mut res = exec(&best, false, false);
    // 1. fewer steps
    let mut chunk = (best.steps.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < best.steps.len() {
            let mut p = best.clone();
            let e = (i + chunk).min(p.steps.len());
            p.steps.drain(i..e);
            if let Some(r) = fails(&p) {
                best = p;
                res = r;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any || t0.elapsed() > budget {
            break;
        }
        if !any || chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
    // 2. nested crashes and fault rules
    for i in 0..best.steps.len() {
        if let Op::Crash(c) = &best.steps[i].op {
            if !c.reopen.is_empty() {
                let mut p = best.clone();
                if let Op::Crash(c) = &mut p.steps[i].op {
                    c.reopen.clear();
                }
                if let Some(r) = fails(&p) {
                    best = p;
                    res = r;
                }
            }
        }
    }
    // 3. quieter environment
    for k in 0..6 {
        let mut p = best.clone();
        let x = match k {
            0 => &mut p.knobs.slow_io,
            1 => &mut p.knobs.spurious,
            2 => &mut p.knobs.short,
            3 => &mut p.knobs.eintr,
            4 => &mut p.knobs.random_pick,
            _ => &mut p.knobs.switch,
        };
        if *x == 0 {
            continue;
        }
        *x = 0;
        if let Some(r) = fails(&p) {
            best = p;
            res = r;
        }
    }
    // 4. the schedule: an explicit list of deviations from the default, as short as possible
    if best.dev.is_none() {
        let mut p = best.clone();
        p.dev = Some(res.deviations.clone());
        if let Some(r) = fails(&p) {
            best = p;
            res = r;
        }
    }
    if let Some(d) = best.dev.clone() {
        let mut d = d;
        let mut chunk = (d.len() / 2).max(1);
        while !d.is_empty() && t0.elapsed() < budget {
            let mut i = 0;
            let mut any = false;
            while i < d.len() {
                let mut e = d.clone();
                e.drain(i..(i + chunk).min(d.len()));
                let mut p = best.clone();
                p.dev = Some(e.clone());
                if let Some(r) = fails(&p) {
                    d = e;
                    best = p;
                    res = r;
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 && !any {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
    }
    (best, res, tries)
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub props: Vec<String>,
    pub seed: u64,
    pub hash: u64,
    pub plan: Plan,
    pub found_with: Plan,
    pub trace: Vec<String>,
}

/// 0: reproduced, 1: something else happened
pub fn replay(file: &str, full: bool) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let r: Replay = serde_json::from_str(&t).expect("replay file");
    let x = exec(&r.plan, true, full);
    for l in &x.trace {
        println!("{l}");
    }
    for v in &x.violations {
        println!("violation {} [{}] {}", v.class, v.props.join(","), v.detail);
    }
    let same = x.violations.iter().any(|v| v.class == r.class && v.detail == r.detail);
    println!(
        "replay: {} (expected {:?}; execution hash {:016x}, recorded {:016x})",
        if same && (x.hash == r.hash || x.hash == 0) { "reproduced exactly" } else if same { "reproduced, execution differs" } else { "NOT reproduced" },
        r.class,
        x.hash,
        r.hash
    );
    if same { 0 } else { 1 }
}

// ---------------------------------------------------------------- the check of one property
struct Budget {
    runs: u64,
    secs: u64,
}
fn budget(prop: &str, tier: &str) -> Budget {
    let quick = tier != "thorough";
    let (runs, secs) = match prop {
        _ => (400_000, 80),
    };
    if quick {
        Budget { runs, secs }
    } else {
        let s = std::env::var("BCT_THOROUGH_S").ok().and_then(|x| x.parse().ok()).unwrap_or(1500);
        Budget { runs: u64::MAX, secs: s }
    }
}

/// where findings are read and evidence and replays are written
fn root() -> String {
    std::env::var("BCT_ROOT").unwrap_or("/verif".into())
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known_list = findings(prop);
    let known: BTreeSet<String> = known_list.iter().map(|x| x.0.clone()).collect();
    let b = budget(prop, tier);
    let limit = Duration::from_secs(b.secs);
    let mut idx = 0u64;
    let mut agg = Agg::default();
    let mut found: BTreeMap<u64, (Plan, Violation)> = BTreeMap::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let stop = std::cell::Cell::new(false);
    pool(
        8,
        || {
            if stop.get() || idx >= b.runs || t0.elapsed() > limit {
                return None;
            }
            let p = gen::generate(prop, seed, idx);
            idx += 1;
            Some(p)
        },
        |p, r| {
            agg.add(&p, &r);
            for v in &r.violations {
                if concerns(v, prop) && known.contains(&v.class) {
                    *known_seen.entry(v.class.clone()).or_insert(0) += 1;
                }
            }
            if let Some(v) = hit(&r, prop, &known) {
                found.insert(p.index, (p, v.clone()));
                stop.set(true);
                return false;
            }
            true
        },
    );
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    if let Some((_, (p, v))) = found.into_iter().next() {
        nviol = 1;
        code = 1;
        let (min, res, tries) = minimise(&p, &v.class, prop, &known, Duration::from_secs(if tier == "thorough" { 300 } else { 90 }));
        let again = exec(&min, true, false);
        let (plan, rr) = if hit(&again, prop, &known).map(|x| x.class == v.class).unwrap_or(false) {
            (min, again)
        } else {
            let o = exec(&p, true, false);
            (p.clone(), o)
        };
        let w = hit(&rr, prop, &known).cloned().unwrap_or(v.clone());
        let _ = res;
        std::fs::create_dir_all(format!("{}/replays", root())).ok();
        let path = format!("{}/replays/{prop}-seed{seed}-run{}.json", root(), p.index);
        let rep = Replay {
            property: prop.into(),
            class: w.class.clone(),
            detail: w.detail.clone(),
            props: w.props.clone(),
            seed,
            hash: rr.hash,
            plan: plan.clone(),
            found_with: p.clone(),
            trace: rr.trace.clone(),
        };
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("violation class: {}", w.class);
        println!("what: {}", w.detail);
        println!("found in run {} of seed {seed}; {} of {} steps left after {tries} minimisation runs; {} scheduling deviations", p.index, plan.steps.len(), p.steps.len(), plan.dev.as_ref().map(|d| d.len()).unwrap_or(0));
        for s in &plan.steps {
            println!("  {} {:?}", s.c, s.op);
        }
        for l in rr.trace.iter().rev().take(40).collect::<Vec<_>>().iter().rev() {
            println!("  | {l}");
        }
        println!("VIOLATION property={prop} replay={path}");
    }
    for (sig, what) in &known_list {
        println!("KNOWN-FINDING: property={prop} {what} [{sig}; met in {} runs of this check]", known_seen.get(sig).unwrap_or(&0));
    }
    agg.write(prop, tier, seed, search_s, t0.elapsed().as_secs_f64(), nviol, &known_seen);
    println!(
        "{prop} {tier}: {} runs in {:.1} s, {} distinct schedules, {} distinct histories, {:.0} s simulated; {}",
        agg.runs,
        search_s,
        agg.scheds.len(),
        agg.hists.len(),
        agg.sim_ns as f64 / 1e9,
        if code == 0 { "held" } else { "VIOLATED" }
    );
    code
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    scheds: BTreeSet<u64>,
    hists: BTreeSet<u64>,
    execs: BTreeSet<u64>,
    sim_ns: u64,
    steps: u64,
    decisions: u64,
    switches: u64,
    preemptions: u64,
    disk_ops: u64,
    ops: u64,
    max_threads: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    engines: BTreeMap<String, u64>,
    others: BTreeMap<String, u64>,
    denied: BTreeSet<String>,
    sample_plans: Vec<Plan>,
}
impl Agg {
    fn add(&mut self, p: &Plan, r: &RunResult) {
        self.runs += 1;
        *self.engines.entry(p.engine.clone()).or_insert(0) += 1;
        // non-trivial: something was done and either a fault hit it or threads interleaved
        let faulted: u64 = r.faults.values().sum();
        if r.ops_done >= 2 && (faulted > 0 || r.preemptions > 0 || r.switches > 8) {
            if self.hists.insert(r.hist_hash) {
                self.nontrivial += 1;
            }
        } else {
            self.hists.insert(r.hist_hash);
        }
        self.scheds.insert(r.sched_hash);
        self.execs.insert(r.hash);
        self.sim_ns += r.sim_ns;
        self.steps += r.steps;
        self.decisions += r.decisions;
        self.switches += r.switches;
        self.preemptions += r.preemptions;
        self.disk_ops += r.disk_ops;
        self.ops += r.ops_done;
        self.max_threads = self.max_threads.max(r.threads);
        for (k, v) in &r.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        for v in &r.violations {
            *self.others.entry(format!("{} [{}]", v.class, v.props.join(","))).or_insert(0) += 1;
        }
        self.denied.extend(r.denied.iter().cloned());
        if self.sample_plans.len() < 2 && r.violations.is_empty() && p.steps.len() <= 14 {
            self.sample_plans.push(p.clone());
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn write(&self, prop: &str, tier: &str, seed: u64, search_s: f64, wall: f64, viol: u64, known: &BTreeMap<String, u64>) {
        let samples: Vec<serde_json::Value> = self
            .sample_plans
            .iter()
            .map(|p| {
                let r = exec(p, true, false);
                serde_json::json!({"run": p.index, "engine": p.engine, "run_seed": p.seed, "steps": p.steps.iter().map(|s| format!("{} {:?}", s.c, s.op)).collect::<Vec<_>>(), "history": r.trace.iter().take(60).collect::<Vec<_>>()})
            })
            .collect();
        let inj: u64 = self.faults.values().sum();
        let j = serde_json::json!({
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": self.runs,
                "distinct_nontrivial": self.nontrivial,
                "rule": "one evaluation is one simulated run: a plan of operations, crashes, faults and knobs generated from (VERIF_SEED, property, run index), executed by the real crate on the simulated OS. A run counts as distinct and non-trivial when at least two operations ran, at least one fault was injected or simulated threads interleaved, and the hash of its recorded history (operations, results, recovered states) differs from every other counted run.",
                "samples": samples,
                "runs_per_hour": (self.runs as f64 / search_s.max(0.001) * 3600.0) as u64,
                "seeds": "each run has its own seed, derived from VERIF_SEED, the property and the run index",
                "engines": self.engines,
                "simulated_seconds": self.sim_ns as f64 / 1e9,
                "operations": self.ops,
                "scheduling_steps": self.steps,
                "scheduling_decisions": self.decisions,
                "context_switches": self.switches,
                "preemptions": self.preemptions,
                "disk_operations": self.disk_ops,
                "max_threads_in_a_run": self.max_threads,
                "distinct_schedules": self.scheds.len(),
                "distinct_schedules_measure": "hash of the sequence of (chosen thread, number of runnable threads, kind of scheduling point)",
                "distinct_histories": self.hists.len(),
                "distinct_executions": self.execs.len(),
                "distinct_executions_measure": "hash over every disk operation, scheduling event and random draw of the run",
                "faults_injected": self.faults,
                "faults_injected_total": inj,
                "situations_reached": self.probes,
                "denied_system_calls": self.denied,
                "other_reports_in_these_runs": self.others,
                "known_findings_met": known,
                "real_code": ["blockchaintree (this repository, all of it)", "sled 0.34.7 (its threads, its log and its recovery; its locks and yield points go through the simulator, its log segments are 64 KiB instead of 512 KiB, except in runs with long blocks or large transactions)", "tokio runtime, tokio::fs blocking pool, tokio and std locks, parking_lot (park/unpark through the simulator)", "zstd, sha2, secp256k1, num arithmetic"],
                "stubbed": ["kernel: threads' scheduling (one seeded scheduler), clocks and timers, futexes, files (in-memory disk with page cache, journalled metadata and durability rules), getrandom", "network (engine s3 only): seeded message queue between nodes, as the crate has no transport of its own"]
            },
            "assumptions": [
                "sequentially consistent memory: simulated threads run one at a time",
                "the disk model: data is durable after fsync/fdatasync of the file, names after fsync of the directory or of the file that was created; unsynced page writes survive a power loss in any subset, torn at 512-byte sectors; metadata is journalled in order",
                "BLOCKS_PER_EPOCH is reduced under cfg(bct_sim)",
                "seeded search samples schedules and faults; what it did not visit it says nothing about"
            ],
            "wall_s": wall,
            "violations": viol
        });
        std::fs::create_dir_all(format!("{}/evidence", root())).ok();
        std::fs::write(format!("{}/evidence/{prop}.json", root()), serde_json::to_string_pretty(&j).unwrap()).unwrap();
    }
}

/// same plan, several processes: every run must be identical
pub fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    let mut total = 0;
    for prop in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C23", "C24"] {
        let mut first: BTreeMap<u64, String> = BTreeMap::new();
        for round in 0..3 {
            let mut i = 0;
            let mut out: Vec<(Plan, RunResult)> = vec![];
            pool(
                8,
                || {
                    if i >= n {
                        return None;
                    }
                    let p = gen::generate(prop, 99, i);
                    i += 1;
                    Some(p)
                },
                |p, r| {
                    out.push((p, r));
                    true
                },
            );
            for (p, r) in out {
                total += 1;
                let sig = format!("{:x} {:x} {:x} {} {:?}", r.hash, r.sched_hash, r.hist_hash, r.sim_ns, r.violations);
                if round == 0 {
                    first.insert(p.index, sig.clone());
                    // the recorded schedule replayed as explicit deviations is the same execution
                    let mut q = p.clone();
                    q.dev = Some(r.deviations.clone());
                    if i % 4 == 0 {
                        let x = exec(&q, false, false);
                        if x.hash != r.hash || x.hist_hash != r.hist_hash {
                            bad += 1;
                            println!("{prop} run {}: explicit schedule differs", p.index);
                        }
                    }
                } else if first[&p.index] != sig {
                    bad += 1;
                    println!("{prop} run {}: {} vs {}", p.index, first[&p.index], sig);
                }
            }
        }
    }
    println!("determinism self-test: {total} runs, {bad} differences");
    if bad == 0 { 0 } else { 1 }
}
