//! What every engine needs: recorded violations, guarded calls, node set-up.
use super::plan::*;
use crate::os;
use std::any::Any;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Ctx {
    pub violations: Vec<Violation>,
    pub probes: BTreeMap<String, u64>,
    pub hist: u64,
    pub ops_done: u64,
    pub panics: Vec<String>,
    pub prop: String,
    /// some caller dropped the future of a call
    pub abandoned: bool,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::default());
        }
        &mut *CTX
    }
}

pub fn probe(k: &str) {
    *ctx().probes.entry(k.to_string()).or_insert(0) += 1;
}
pub fn violate(props: &[&str], class: &str, detail: String) {
    os::note(|| format!("VIOLATION {class} [{}] {detail}", props.join(",")));
    let c = ctx();
    if c.violations.len() < 20 {
        let mut p: Vec<String> = props.iter().map(|s| s.to_string()).collect();
        if c.abandoned && !class.starts_with("known:") {
            p.push("C23".into());
        }
        p.sort();
        p.dedup();
        c.violations.push(Violation { props: p, class: class.to_string(), detail });
    }
}
pub fn violated() -> bool {
    ctx().violations.iter().any(|v| !v.class.starts_with("known:"))
}
/// one line of history: goes to the trace and into the history hash
pub fn hist(f: impl FnOnce() -> String) {
    let s = f();
    let c = ctx();
    let mut h = c.hist;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    c.hist = os::rng::mix(h);
    os::note(|| s);
}

pub enum Out<R> {
    Ok(R),
    Err(String),
    Panic(String),
}
impl<R> Out<R> {
    pub fn ok(self) -> Option<R> {
        match self {
            Out::Ok(r) => Some(r),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic(_) => "PANIC",
        }
    }
    pub fn why(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Err(e) => format!("error: {e}"),
            Out::Panic(e) => format!("panic: {e}"),
        }
    }
}
/// polls a call until it is ready, or was pending that many times; then drops it
pub async fn abandon<F: std::future::Future>(f: F, polls: u8, hold: u8) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut n = 0;
    let r = std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
        std::task::Poll::Ready(r) => std::task::Poll::Ready(Some(r)),
        std::task::Poll::Pending => {
            n += 1;
            if n >= polls {
                for _ in 0..hold {
                    os::yield_now();
                }
                std::task::Poll::Ready(None)
            } else {
                std::task::Poll::Pending
            }
        }
    })
    .await;
    drop(f);
    if r.is_none() {
        ctx().abandoned = true;
        probe("call_abandoned");
    }
    r
}
pub fn panic_msg(e: Box<dyn Any + Send>) -> String {
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    m
}
/// the message and its causes, without colours, locations and backtraces
fn short_error(s: &str) -> String {
    let mut t = String::new();
    let mut esc = false;
    for c in s.chars() {
        match c {
            '\u{1b}' => esc = true,
            'm' if esc => esc = false,
            _ if esc => {}
            c => t.push(c),
        }
    }
    let l: Vec<&str> = t
        .lines()
        .map(|l| l.trim_matches(|c: char| " │├╰─▶╴".contains(c)))
        .filter(|l| !l.is_empty() && !l.starts_with("at ") && !l.contains("backtrace"))
        .collect();
    l.join(" / ").replace("Error ocurred while operating on the ", "").chars().take(300).collect()
}
/// sled itself panics when a database is dropped while its disk keeps failing (a dependency's
/// defect that no caller can avoid: see DESIGN.md)
pub const SLED_DROP: &str = "sled panicked in drop";
pub const SLED_DROP_KNOWN: &str = "known:sled panics when a database is closed while the disk fails";
/// while sled recovers, it takes a log segment it cannot read for the end of the log, and cuts the
/// log there: whatever the log held is gone (again a dependency's defect)
pub const SLED_READ_KNOWN: &str = "known:sled discards a log which it could not read while opening";
/// after a failed write in its background flusher sled lets a later flush wait for ever (its thread
/// ends without recording the error)
pub const SLED_WAIT_KNOWN: &str = "known:sled never ends a flush after its background flush failed";
/// sled keeps values above a quarter of a segment in files of their own, which it does not sync,
/// and removes an old one before the log that replaces it is durable
pub const SLED_BLOB_KNOWN: &str = "known:sled neither syncs nor keeps the files of large values";
fn is_sled_drop(p: &str) -> bool {
    p.contains("sled-0.34.7/src/pagecache/logger.rs") && p.contains("on an `Err` value: Os")
}
/// call the code under test; errors are shown without backtraces or locations
pub fn attempt<R, E: std::fmt::Debug>(f: impl FnOnce() -> Result<R, E>) -> Out<R> {
    let seen = ctx().panics.len();
    let r = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(r)) => Out::Ok(r),
        Ok(Err(e)) => {
            let s = format!("{e:?}");
            Out::Err(short_error(&s))
        }
        Err(p) => {
            let m: String = panic_msg(p).chars().take(200).collect();
            match ctx().panics.get(seen) {
                Some(p) if is_sled_drop(p) => Out::Panic(format!("{SLED_DROP}: {m}")),
                _ => Out::Panic(m),
            }
        }
    };
    os::progress();
    r
}
/// the same for a call that may have been abandoned
pub fn attempt_opt<R, E: std::fmt::Debug>(f: impl FnOnce() -> Option<Result<R, E>>) -> Option<Out<R>> {
    match attempt(|| f().transpose()) {
        Out::Ok(None) => None,
        Out::Ok(Some(r)) => Some(Out::Ok(r)),
        Out::Err(e) => Some(Out::Err(e)),
        Out::Panic(e) => Some(Out::Panic(e)),
    }
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if os::active() {
            let t = os::my_tid();
            ctx().panics.push(format!("t{t} {loc} {msg}"));
            os::note(|| format!("PANIC at {loc}: {msg}"));
            // while this thread unwinds, databases are dropped: the disk works again from here on,
            // since a second panic would end the process before anything is reported
            os::sim().rules.clear();
            for d in os::sim().disks.iter_mut() {
                d.capacity = u64::MAX;
            }
        } else {
            eprintln!("harness panic at {loc}: {msg}");
        }
    }));
}
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().build().unwrap()
}
