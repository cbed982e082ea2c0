//! The simulated operating system: scheduler, clock, disks and fault injection.
//!
//! Exactly one simulated thread runs at any moment (it holds the baton); all state lives in one
//! `Sim` object that only the baton holder touches.
pub mod hooks;
pub mod rng;
pub mod vfs;

use rng::Rng;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};
use vfs::{CrashMode, CrashPlan, Disk};

pub const FD_BASE: i32 = 1_000_000;
const VIRTUAL_PTHREAD: libc::pthread_t = 0x51D0_0000_0000;

thread_local! {
    static TID: Cell<u32> = const { Cell::new(0) };
    /// re-entrance guard: the simulator itself must not be simulated
    static INNER: Cell<u32> = const { Cell::new(0) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Runnable,
    /// waiting on a futex word, with an optional deadline
    Futex { addr: usize, deadline: u64 },
    Sleep { deadline: u64 },
    Join(u32),
    Finished,
}

pub struct Thread {
    pub st: St,
    pub go: Box<AtomicU32>,
    pub exiting: bool,
    pub woken_by_timeout: bool,
    pub pthread: libc::pthread_t,
    pub ret: usize,
    pub yields: u32,
}

/// Operation classes of the simulated disk; fault rules select by mask.
pub mod class {
    pub const OPEN: u32 = 1;
    pub const READ: u32 = 2;
    pub const WRITE: u32 = 4;
    pub const SYNC: u32 = 8;
    pub const TRUNC: u32 = 16;
    pub const UNLINK: u32 = 32;
    pub const RENAME: u32 = 64;
    pub const MKDIR: u32 = 128;
    pub const RMDIR: u32 = 256;
    pub const READDIR: u32 = 512;
    pub const STAT: u32 = 1024;
    pub const CREATE: u32 = 2048;
    pub const RANGE_SYNC: u32 = 4096;
    pub const NAMES: &[(u32, &str)] = &[
        (OPEN, "open"),
        (READ, "read"),
        (WRITE, "write"),
        (SYNC, "fsync"),
        (TRUNC, "truncate"),
        (UNLINK, "unlink"),
        (RENAME, "rename"),
        (MKDIR, "mkdir"),
        (RMDIR, "rmdir"),
        (READDIR, "readdir"),
        (STAT, "stat"),
        (CREATE, "create"),
        (RANGE_SYNC, "sync_file_range"),
    ];
    pub const MUTATING: u32 =
        WRITE | SYNC | TRUNC | UNLINK | RENAME | MKDIR | RMDIR | CREATE | RANGE_SYNC;
    pub fn name(c: u32) -> &'static str {
        NAMES.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or("?")
    }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct FaultRule {
    pub mask: u32,
    /// substring of the path
    pub path: String,
    /// let this many matching operations pass first
    pub skip: u64,
    /// then fail this many
    pub count: u64,
    pub errno: i32,
}

pub struct Knobs {
    /// probability (ppm) that a scheduling point switches to another runnable thread
    pub p_switch: u64,
    /// probability that a woken/forced choice is random rather than round robin
    pub p_random_pick: u64,
    pub p_slow_io: u64,
    pub p_short: u64,
    pub p_eintr: u64,
    pub p_spurious: u64,
    pub tick_io_ns: u64,
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            p_switch: 0,
            p_random_pick: 0,
            p_slow_io: 0,
            p_short: 0,
            p_eintr: 0,
            p_spurious: 0,
            tick_io_ns: 10_000,
        }
    }
}

pub struct Ofd {
    pub disk: usize,
    pub ino: u64,
    pub pos: u64,
    pub refs: u32,
    pub append: bool,
    pub readable: bool,
    pub writable: bool,
    pub path: String,
}

pub struct Sim {
    pub seed: u64,
    pub threads: Vec<Thread>,
    pub current: u32,
    pub now: u64,
    pub knobs: Knobs,
    pub rng_sched: Rng,
    pub rng_io: Rng,
    pub rng_os: Rng,
    pub steps: u64,
    pub step_cap: u64,
    pub decisions: u64,
    pub switches: u64,
    pub preemptions: u64,
    /// when set, decisions follow this list (decision index -> tid) and default otherwise
    pub replay: Option<BTreeMap<u64, u32>>,
    /// decisions that differed from the default
    pub deviations: Vec<(u64, u32)>,
    pub futexes: BTreeMap<usize, VecDeque<u32>>,
    pub exit_queue: Vec<u32>,
    pub mgr: Box<AtomicU32>,
    pub abort: Option<String>,
    pub done: bool,
    pub progress_at: u64,
    pub stuck_after: u64,
    pub hash: u64,
    /// hash of the decision sequence only
    pub sched_hash: u64,
    /// all disks ever mounted; old ones stay for the instances that still hold files on them
    pub disks: Vec<Disk>,
    pub mounts: BTreeMap<String, usize>,
    pub fds: BTreeMap<i32, u64>,
    pub ofds: BTreeMap<u64, Ofd>,
    pub next_fd: i32,
    pub next_ofd: u64,
    /// a listing may fail in its middle too (not while sled runs: it takes what it got for all)
    pub late_readdir: bool,
    pub dirs: BTreeMap<usize, hooks::DirStream>,
    pub rules: BTreeMap<String, Vec<FaultRule>>,
    pub fault_counts: BTreeMap<String, u64>,
    pub disk_ops: u64,
    /// flushes that somebody asked a database for (not those of its background thread)
    pub asked_flushes: u64,
    /// values sled stored in files of their own
    pub large_values: u64,
    /// sled's log segments, in bytes
    pub segment: usize,
    pub trace: Option<Vec<String>>,
    pub full_trace: bool,
    /// debugging: print notes at once
    pub live: bool,
    /// set by the harness around operations whose disk operations it wants to count
    pub io_count: u64,
    pub denied: BTreeSet<String>,
    /// threads that wait inside sled for its log to become stable
    pub log_waiters: i64,
    /// databases being opened
    pub opening: i64,
    /// the harness's clock of events: calls and returns of recorded operations
    pub events: u64,
}

static mut SIM: *mut Sim = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn active() -> bool {
    unsafe { !SIM.is_null() }
}
/// the calling thread is a simulated one and runs code under test or harness code
pub fn in_sim() -> bool {
    TID.with(|t| t.get()) != 0 && INNER.with(|i| i.get()) == 0
}
pub fn my_tid() -> u32 {
    TID.with(|t| t.get())
}

// ---------------------------------------------------------------- raw system calls
#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
fn raw_futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        raw6(libc::SYS_futex, a as *const _ as i64, 128, v as i64, 0, 0, 0);
    }
}
fn raw_futex_wake(a: &AtomicU32) {
    unsafe {
        raw6(libc::SYS_futex, a as *const _ as i64, 129, 1, 0, 0, 0);
    }
}

fn wait_go(go: &AtomicU32) {
    while go.swap(0, Ordering::Acquire) == 0 {
        raw_futex_wait(go, 0);
    }
}
fn give_go(go: &AtomicU32) {
    go.store(1, Ordering::Release);
    raw_futex_wake(go);
}

// ---------------------------------------------------------------- tracing
pub fn note(f: impl FnOnce() -> String) {
    let s = sim();
    if s.live {
        let m = format!("{:>12} t{:<3} {}\n", s.now, my_tid(), f());
        unsafe { raw6(libc::SYS_write, 2, m.as_ptr() as i64, m.len() as i64, 0, 0, 0) };
        return;
    }
    if let Some(t) = &mut s.trace {
        let now = s.now;
        let tid = my_tid();
        t.push(format!("{:>12} t{:<3} {}", now, tid, f()));
    }
}
pub fn mixin(x: u64) {
    let s = sim();
    s.hash = rng::mix(s.hash ^ x);
}
pub fn mixin_str(x: &str) {
    let mut h = 0xcbf29ce484222325u64;
    for b in x.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mixin(h);
}
pub fn count_fault(k: &str) {
    *sim().fault_counts.entry(k.to_string()).or_insert(0) += 1;
}

// ---------------------------------------------------------------- scheduler
fn fail(s: &mut Sim, why: String) -> ! {
    if s.abort.is_none() {
        s.abort = Some(why);
    }
    if std::env::var_os("BCT_HANG").is_some() {
        // stay as it is, for a debugger
        loop {
            let ts = libc::timespec { tv_sec: 1, tv_nsec: 0 };
            unsafe { raw6(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0) };
        }
    }
    s.mgr.store(1, Ordering::Release);
    raw_futex_wake(&s.mgr);
    loop {
        let a = AtomicU32::new(0);
        raw_futex_wait(&a, 0);
    }
}

pub fn advance(s: &mut Sim, to: u64) {
    let to = to.max(s.now);
    s.now = to;
    for t in 1..s.threads.len() {
        let (dl, addr) = match s.threads[t].st {
            St::Futex { addr, deadline } => (deadline, Some(addr)),
            St::Sleep { deadline } => (deadline, None),
            _ => continue,
        };
        if dl <= to {
            if let Some(a) = addr {
                if let Some(q) = s.futexes.get_mut(&a) {
                    q.retain(|x| *x as usize != t);
                    if q.is_empty() {
                        s.futexes.remove(&a);
                    }
                }
                s.threads[t].woken_by_timeout = true;
            }
            s.threads[t].st = St::Runnable;
        }
    }
}

fn next_deadline(s: &Sim) -> Option<u64> {
    s.threads[1..]
        .iter()
        .filter_map(|t| match t.st {
            St::Futex { deadline, .. } | St::Sleep { deadline } if deadline != u64::MAX => Some(deadline),
            _ => None,
        })
        .min()
}

/// Choose who runs next. `forced`: the current thread cannot continue (or wants not to).
fn choose(s: &mut Sim, forced: bool, kind: u32) -> u32 {
    s.steps += 1;
    if s.steps > s.step_cap {
        fail(s, format!("step budget exhausted: {} scheduling steps", s.step_cap));
    }
    let cur = s.current;
    loop {
        let mut cand: [u32; 64] = [0; 64];
        let mut n = 0;
        for t in 1..s.threads.len() {
            if s.threads[t].st == St::Runnable && n < 64 && !(forced && t as u32 == cur) {
                cand[n] = t as u32;
                n += 1;
            }
        }
        let cur_ok = !forced && s.threads[cur as usize].st == St::Runnable;
        if n == 0 {
            if forced && s.threads[cur as usize].st == St::Runnable {
                // a yield with nobody else to run: let time pass so that sleepers get their turn
                let th = &mut s.threads[cur as usize];
                th.yields += 1;
                let y = th.yields;
                let to = if y % 64 == 0 {
                    next_deadline(s).unwrap_or(s.now + 1000)
                } else {
                    s.now + 1000
                };
                if y % 64 == 0 && s.now.saturating_sub(s.progress_at) > s.stuck_after {
                    fail(s, format!("no progress for {} simulated ms (spinning)", s.stuck_after / 1_000_000));
                }
                advance(s, to);
                return cur;
            }
            match next_deadline(s) {
                None => fail(s, "deadlock: no runnable thread and no timer".into()),
                Some(d) => {
                    if d.saturating_sub(s.progress_at) > s.stuck_after {
                        fail(s, format!("no progress for {} simulated ms", s.stuck_after / 1_000_000));
                    }
                    advance(s, d);
                    continue;
                }
            }
        }
        // default: keep running; otherwise round robin after the current thread
        let default = if cur_ok {
            cur
        } else {
            *cand[..n].iter().find(|t| **t > cur).unwrap_or(&cand[0])
        };
        if n == 1 {
            return cand[0];
        }
        let idx = s.decisions;
        s.decisions += 1;
        let pick = if let Some(r) = &s.replay {
            match r.get(&idx) {
                Some(t) if cand[..n].contains(t) => *t,
                _ => default,
            }
        } else if cur_ok {
            if s.rng_sched.ppm(s.knobs.p_switch) {
                loop {
                    let t = cand[s.rng_sched.below(n as u64) as usize];
                    if t != cur {
                        break t;
                    }
                }
            } else {
                cur
            }
        } else if s.rng_sched.ppm(s.knobs.p_random_pick) {
            cand[s.rng_sched.below(n as u64) as usize]
        } else {
            default
        };
        if pick != default {
            s.deviations.push((idx, pick));
        }
        s.sched_hash = rng::mix(s.sched_hash ^ ((pick as u64) << 32) ^ n as u64 ^ ((kind as u64) << 48));
        return pick;
    }
}

/// hand the baton to `next` and wait until it comes back
fn switch_to(s: &mut Sim, next: u32) {
    let me = s.current;
    if next == me {
        return;
    }
    s.switches += 1;
    if s.threads[me as usize].st == St::Runnable {
        s.preemptions += 1;
    }
    s.current = next;
    let my_go: *const AtomicU32 = &*s.threads[me as usize].go;
    let next_go: *const AtomicU32 = &*s.threads[next as usize].go;
    unsafe {
        give_go(&*next_go);
        wait_go(&*my_go);
    }
}

/// an ordinary scheduling point: the current thread may be preempted here
pub fn point(kind: u32) {
    let s = sim();
    if s.threads[s.current as usize].exiting {
        return;
    }
    let next = choose(s, false, kind);
    switch_to(s, next);
}

/// the current thread gives way (spin loops, sched_yield)
pub fn yield_now() {
    let s = sim();
    let next = choose(s, true, 99);
    if next != s.current {
        s.threads[s.current as usize].yields = 0;
    }
    switch_to(s, next);
}

/// block the current thread in state `st` until something makes it runnable
fn block(st: St) {
    let s = sim();
    let me = s.current as usize;
    s.threads[me].st = st;
    s.threads[me].woken_by_timeout = false;
    let next = choose(s, false, 98);
    switch_to(s, next);
}

pub fn sleep_ns(ns: u64) {
    let s = sim();
    let d = s.now + ns.max(1);
    block(St::Sleep { deadline: d });
}

pub fn futex_wait(addr: usize, val: u32, deadline: u64) -> i64 {
    let s = sim();
    let cur = unsafe { &*(addr as *const AtomicU32) }.load(Ordering::SeqCst);
    if cur != val {
        return -(libc::EAGAIN as i64);
    }
    if s.knobs.p_spurious > 0 && s.replay_or(|s| s.rng_os.ppm(s.knobs.p_spurious)) {
        count_fault("spurious_futex_wakeup");
        return 0;
    }
    if deadline <= s.now {
        return -(libc::ETIMEDOUT as i64);
    }
    let me = s.current;
    s.futexes.entry(addr).or_default().push_back(me);
    block(St::Futex { addr, deadline });
    if sim().threads[me as usize].woken_by_timeout {
        -(libc::ETIMEDOUT as i64)
    } else {
        0
    }
}

pub fn futex_wake(addr: usize, n: u64) -> i64 {
    let s = sim();
    let mut woken = 0;
    if let Some(q) = s.futexes.get_mut(&addr) {
        while woken < n {
            match q.pop_front() {
                Some(t) => {
                    s.threads[t as usize].st = St::Runnable;
                    woken += 1;
                }
                None => break,
            }
        }
        if q.is_empty() {
            s.futexes.remove(&addr);
        }
    }
    woken as i64
}

impl Sim {
    fn replay_or(&mut self, f: impl FnOnce(&mut Sim) -> bool) -> bool {
        f(self)
    }
}

struct StartArgs {
    tid: u32,
    start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
}

extern "C" fn thread_main(p: *mut libc::c_void) -> *mut libc::c_void {
    let a = unsafe { Box::from_raw(p as *mut StartArgs) };
    TID.with(|t| t.set(a.tid));
    let go: *const AtomicU32 = &*sim().threads[a.tid as usize].go;
    wait_go(unsafe { &*go });
    let r = (a.start)(a.arg);
    let s = sim();
    s.threads[a.tid as usize].exiting = true;
    s.threads[a.tid as usize].ret = r as usize;
    s.exit_queue.push(a.tid);
    s.mgr.store(1, Ordering::Release);
    raw_futex_wake(&s.mgr);
    // thread-local destructors still run after this, with the baton held
    r
}

pub unsafe fn spawn(
    attr: *const libc::pthread_attr_t,
    start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    out: *mut libc::pthread_t,
) -> i32 {
    let s = sim();
    let tid = s.threads.len() as u32;
    s.threads.push(Thread {
        st: St::Runnable,
        go: Box::new(AtomicU32::new(0)),
        exiting: false,
        woken_by_timeout: false,
        pthread: 0,
        ret: 0,
        yields: 0,
    });
    let a = Box::into_raw(Box::new(StartArgs { tid, start, arg }));
    let r = hooks::real_pthread_create(out, attr, thread_main, a as *mut libc::c_void);
    if r != 0 {
        s.threads[tid as usize].st = St::Finished;
        return r;
    }
    s.threads[tid as usize].pthread = *out;
    // a handle of our own: glibc reuses real ones as soon as the manager has reaped a thread
    *out = VIRTUAL_PTHREAD + tid as libc::pthread_t;
    mixin(0x7777 + tid as u64);
    r
}

pub unsafe fn join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    let s = sim();
    let tid = t.wrapping_sub(VIRTUAL_PTHREAD) as usize;
    if tid == 0 || tid >= s.threads.len() {
        return libc::ESRCH;
    }
    if sim().threads[tid].st != St::Finished {
        block(St::Join(tid as u32));
    }
    if !ret.is_null() {
        *ret = sim().threads[tid].ret as *mut libc::c_void;
    }
    0
}

/// Runs `main` as simulated thread 1 and drives the simulation to its end.
/// Called on the (only) real thread of a fresh process, which becomes the manager.
pub fn run_sim(sim_obj: Box<Sim>, main: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void) {
    unsafe {
        SIM = Box::into_raw(sim_obj);
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 16 << 20);
        let mut t: libc::pthread_t = 0;
        spawn(&attr, main, std::ptr::null_mut(), &mut t);
        let s = sim();
        s.current = 1;
        give_go(&s.threads[1].go);
        let mut spins = 0u32;
        loop {
            // wait for an exit or the end
            if s.exit_queue.is_empty() && s.abort.is_none() {
                while s.mgr.swap(0, Ordering::Acquire) == 0 {
                    raw_futex_wait(&s.mgr, 0);
                }
            }
            if s.abort.is_some() {
                return;
            }
            let mut reaped = None;
            for (i, t) in s.exit_queue.iter().enumerate() {
                let p = s.threads[*t as usize].pthread;
                if hooks::real_tryjoin(p) == 0 {
                    reaped = Some((i, *t));
                    break;
                }
            }
            let Some((i, t)) = reaped else {
                spins += 1;
                if spins > 2000 {
                    let ts = libc::timespec { tv_sec: 0, tv_nsec: 50_000 };
                    raw6(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0);
                } else {
                    raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
                }
                continue;
            };
            spins = 0;
            s.exit_queue.remove(i);
            s.threads[t as usize].st = St::Finished;
            if t == 1 {
                s.done = true;
                return;
            }
            for x in 1..s.threads.len() {
                if s.threads[x].st == St::Join(t) {
                    s.threads[x].st = St::Runnable;
                }
            }
            // the dead thread held the baton: pass it on
            debug_assert_eq!(s.current, t);
            let next = choose_mgr(s);
            let Some(next) = next else { return };
            s.current = next;
            give_go(&s.threads[next as usize].go);
        }
    }
}

fn choose_mgr(s: &mut Sim) -> Option<u32> {
    loop {
        let cur = s.current;
        let cand: Vec<u32> =
            (1..s.threads.len() as u32).filter(|t| s.threads[*t as usize].st == St::Runnable).collect();
        if cand.is_empty() {
            match next_deadline(s) {
                Some(d) if d.saturating_sub(s.progress_at) <= s.stuck_after => {
                    advance(s, d);
                    continue;
                }
                _ => {
                    s.abort = Some("deadlock: no runnable thread after a thread exit".into());
                    return None;
                }
            }
        }
        return Some(*cand.iter().find(|t| **t > cur).unwrap_or(&cand[0]));
    }
}

// ---------------------------------------------------------------- harness interface
impl Sim {
    pub fn new(seed: u64) -> Box<Sim> {
        let dummy = Thread {
            st: St::Finished,
            go: Box::new(AtomicU32::new(0)),
            exiting: false,
            woken_by_timeout: false,
            pthread: 0,
            ret: 0,
            yields: 0,
        };
        Box::new(Sim {
            seed,
            threads: vec![dummy],
            current: 0,
            now: 1_000_000_000,
            knobs: Knobs::default(),
            rng_sched: Rng::new(seed, 1),
            rng_io: Rng::new(seed, 2),
            rng_os: Rng::new(seed, 3),
            steps: 0,
            step_cap: 3_000_000,
            decisions: 0,
            switches: 0,
            preemptions: 0,
            replay: None,
            deviations: vec![],
            futexes: BTreeMap::new(),
            exit_queue: vec![],
            mgr: Box::new(AtomicU32::new(0)),
            abort: None,
            done: false,
            progress_at: 1_000_000_000,
            stuck_after: 120_000_000_000,
            hash: 0,
            sched_hash: 0,
            disks: vec![],
            mounts: BTreeMap::new(),
            fds: BTreeMap::new(),
            ofds: BTreeMap::new(),
            next_fd: FD_BASE,
            next_ofd: 1,
            late_readdir: false,
            dirs: BTreeMap::new(),
            rules: BTreeMap::new(),
            fault_counts: BTreeMap::new(),
            disk_ops: 0,
            asked_flushes: 0,
            large_values: 0,
            segment: 64 << 10,
            trace: None,
            full_trace: false,
            live: false,
            io_count: 0,
            denied: BTreeSet::new(),
            log_waiters: 0,
            opening: 0,
            events: 0,
        })
    }
}

/// the next event of the recorded history
pub fn event() -> u64 {
    let s = sim();
    s.events += 1;
    s.events
}
pub fn progress() {
    let s = sim();
    s.progress_at = s.now;
}
pub fn mount(name: &str) {
    let s = sim();
    s.disks.push(Disk::new(name));
    s.mounts.insert(name.to_string(), s.disks.len() - 1);
}
pub fn disk(name: &str) -> &'static mut Disk {
    let s = sim();
    let i = s.mounts[name];
    &mut s.disks[i]
}
pub fn has_disk(name: &str) -> bool {
    sim().mounts.contains_key(name)
}
pub fn arm_crash(name: &str, after_ops: u64, mode: CrashMode, seed: u64, before: bool) {
    disk(name).crash = Some(CrashPlan { after_ops, mode, seed, before });
}
pub fn disarm_crash(name: &str) {
    disk(name).crash = None;
}
/// has the armed crash happened inside an operation?
pub fn crashed(name: &str) -> bool {
    disk(name).image.is_some()
}
/// crash now (between operations)
pub fn crash_now(name: &str, mode: CrashMode, seed: u64) {
    let e = sim().events;
    let d = disk(name);
    if d.image.is_none() {
        d.crash_event = e;
        let img = d.crash_image(mode, seed);
        d.crash_op = "between operations".into();
        d.image = Some(Box::new(img));
        d.crash = None;
    }
}
/// swap in the image of the crash; whoever still holds files of the old disk keeps using that
pub fn remount_after_crash(name: &str) {
    let s = sim();
    let i = s.mounts[name];
    let img = s.disks[i].image.take().expect("no crash image");
    s.disks.push(*img);
    s.mounts.insert(name.to_string(), s.disks.len() - 1);
}
pub fn set_rules(name: &str, rules: Vec<FaultRule>) {
    sim().rules.insert(name.to_string(), rules);
}
pub fn clear_rules(name: &str) {
    sim().rules.remove(name);
}
