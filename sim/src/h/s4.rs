//! Engine S4: archive files, written and read through a disk that splits, interrupts, fails and
//! cuts short. The oracle is the data itself.
use super::gen;
use super::plan::*;
use super::world::*;
use crate::os::{self, class, rng::Rng, vfs::CrashMode, FaultRule};
use blockchaintree::tools;
use std::sync::Arc;

const DISK: &str = "n0";
const FILES: u8 = 3;

/// what a file may legitimately be read back as
#[derive(Clone, Debug, Default)]
enum Is {
    #[default]
    Missing,
    /// compressed with success: exactly this
    Whole(Arc<Vec<u8>>),
    /// something failed or was cut: an error, or one of these in full
    Open(Vec<Arc<Vec<u8>>>),
    /// cut short: an error
    Cut,
}

/// disk errors that occurred
pub fn faults() -> u64 {
    os::sim().fault_counts.iter().filter(|(k, _)| k.contains(":E") || k.contains("(full)")).filter(|(k, _)| !k.contains("EINTR")).map(|x| *x.1).sum()
}
struct A {
    f: Vec<Is>,
    rules: Option<(Vec<FaultRule>, Option<u64>)>,
    fatal: bool,
}
fn path(f: u8) -> String {
    format!("/sim/n0/archive{f}")
}
pub fn data(size: u32, kind: u8, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed, 31);
    let n = size as usize;
    let mut v = vec![0u8; n];
    match kind % 5 {
        0 => r.fill(&mut v),
        1 => {}
        2 => {
            for (i, b) in v.iter_mut().enumerate() {
                *b = (i / 7 % 251) as u8;
            }
        }
        3 => {
            // stretches of noise and of repetition
            let mut i = 0;
            while i < n {
                let l = (r.range(1, 5000) as usize).min(n - i);
                if r.pct(50) {
                    r.fill(&mut v[i..i + l]);
                } else {
                    let b = r.next() as u8;
                    v[i..i + l].fill(b);
                }
                i += l;
            }
        }
        _ => {
            for b in v.iter_mut() {
                *b = b"0123456789abcdef|"[r.below(17) as usize];
            }
        }
    }
    v
}

pub fn run(p: &Plan) {
    os::mount(DISK);
    let mut a = A { f: vec![Is::Missing; FILES as usize], rules: None, fatal: false };
    for s in &p.steps {
        if a.fatal || violated() {
            break;
        }
        a.step(s.c % FILES, &s.op);
        os::progress();
    }
    if !a.fatal && !violated() {
        a.off();
        os::disarm_crash(DISK);
        for f in 0..FILES {
            if !a.fatal {
                a.read(f);
            }
        }
        // the faults are over: archiving works
        for f in 0..FILES {
            if !a.fatal && !violated() {
                a.write(f, 5000 + f as u32, 3, p.seed);
                a.read(f);
            }
        }
    }
}
impl A {
    fn die(&mut self, props: &[&str], class: &str, detail: String) {
        let mut props = props.to_vec();
        if faults() > 0 && !props.contains(&"C18") {
            props.push("C18");
        }
        violate(&props, class, detail);
        self.fatal = true;
    }
    fn on(&mut self) {
        if let Some((r, cap)) = self.rules.take() {
            os::set_rules(DISK, r);
            if let Some(c) = cap {
                let d = os::disk(DISK);
                d.capacity = d.used + c;
            }
        }
    }
    fn off(&mut self) {
        self.rules = None;
        os::clear_rules(DISK);
        os::disk(DISK).capacity = u64::MAX;
    }
    fn step(&mut self, f: u8, op: &Op) {
        match op {
            Op::Fault { rules, cap } => self.rules = Some((rules.clone(), *cap)),
            Op::Crash(c) => {
                // the process is killed in the middle of writing
                if let Some(n) = c.after {
                    os::arm_crash(DISK, n.max(1), CrashMode::Kill, c.seed, c.before);
                }
            }
            Op::Compress { size, kind, seed } => self.write(f, *size, *kind, *seed),
            Op::Decompress => self.read(f),
            Op::Cut { at, of } => {
                // the kill is for the archiving code, not for the harness's own operations
                os::disarm_crash(DISK);
                let p = path(f);
                if let Ok(m) = std::fs::metadata(&p) {
                    let n = m.len();
                    let keep = if *of == 0 { (*at as u64).min(n) } else { n * *at as u64 / *of as u64 };
                    let keep = keep.min(n.saturating_sub(1));
                    if n == 0 {
                        return;
                    }
                    if let Ok(h) = std::fs::OpenOptions::new().write(true).open(&p) {
                        if h.set_len(keep).is_ok() {
                            probe("cut_short");
                            hist(|| format!("file {f} cut from {n} to {keep} bytes"));
                            self.f[f as usize] = match self.f[f as usize].clone() {
                                Is::Missing => Is::Missing,
                                Is::Whole(_) | Is::Cut => Is::Cut,
                                // it may have held rubbish after a whole archive
                                Is::Open(v) => Is::Open(v),
                            };
                        }
                    }
                }
            }
            Op::Remove => {
                os::disarm_crash(DISK);
                if std::fs::remove_file(path(f)).is_ok() {
                    probe("removed");
                    self.f[f as usize] = Is::Missing;
                }
            }
            _ => {}
        }
    }
    fn write(&mut self, f: u8, size: u32, kind: u8, seed: u64) {
        let d = Arc::new(data(size, kind, seed));
        self.on();
        let armed = os::sim().rules.contains_key(DISK) || os::disk(DISK).capacity != u64::MAX;
        let f0 = faults();
        let r = attempt(|| tools::compress_to_file(path(f), &d));
        let fired = faults() > f0;
        self.off();
        hist(|| format!("compress {size} bytes of kind {kind} to {f}: {}", r.tag()));
        let old = match self.f[f as usize].clone() {
            Is::Whole(d) => vec![d],
            Is::Open(v) => v,
            _ => vec![],
        };
        if os::crashed(DISK) {
            probe("killed_while_archiving");
            os::disarm_crash(DISK);
            os::remount_after_crash(DISK);
            let mut v = old;
            v.push(d);
            self.f[f as usize] = Is::Open(v);
            return;
        }
        match r {
            Out::Ok(()) => {
                probe(if fired { "archived_despite_fault" } else { "archived" });
                self.f[f as usize] = Is::Whole(d);
                if fired {
                    // a success was claimed although the disk failed: then it has to be true
                    self.read(f);
                }
            }
            Out::Panic(e) => self.die(&["C16", "C18"], "archive-panic", format!("compressing {size} bytes: {e}")),
            Out::Err(e) => {
                if !fired {
                    self.die(&["C16"], "archive-refused", format!("compressing {size} bytes with{} failed: {e}", if armed { " a fault that did not occur" } else { "out any fault" }));
                    return;
                }
                probe("archive_failed_by_fault");
                let mut v = old;
                v.push(d);
                self.f[f as usize] = Is::Open(v);
            }
        }
    }
    fn read(&mut self, f: u8) {
        self.on();
        let f0 = faults();
        let r = attempt(|| tools::decompress_from_file(path(f)));
        let fired = faults() > f0;
        self.off();
        hist(|| format!("decompress {f}: {} {}", r.tag(), if let Out::Ok(d) = &r { d.len() } else { 0 }));
        if os::crashed(DISK) {
            os::disarm_crash(DISK);
            os::remount_after_crash(DISK);
            return;
        }
        let is = self.f[f as usize].clone();
        match (r, is) {
            (Out::Panic(e), is) => self.die(&["C16", "C18"], "archive-panic", format!("decompressing {}: {e}", name(&is))),
            (Out::Ok(d), Is::Whole(w)) => {
                if d != *w {
                    self.die(&["C16"], "archive-differs", format!("{} bytes read back as {} other bytes{}", w.len(), d.len(), if fired { ", while the disk failed" } else { "" }));
                    return;
                }
                probe(if fired { "read_back_despite_fault" } else { "read_back" });
            }
            (Out::Err(e), Is::Whole(w)) => {
                if !fired {
                    self.die(&["C16"], "archive-unreadable", format!("{} bytes archived with success cannot be read back: {e}", w.len()));
                    return;
                }
                probe("read_failed_by_fault");
            }
            (Out::Ok(d), Is::Open(v)) => {
                if !v.iter().any(|x| **x == d) {
                    self.die(&["C16"], "incomplete-archive-accepted", format!("an archive whose writing failed reads back as {} bytes, which were never archived", d.len()));
                    return;
                }
                probe("unfinished_archive_was_whole");
            }
            (Out::Err(_), Is::Open(_)) => probe("unfinished_archive_refused"),
            (Out::Ok(d), Is::Cut) => self.die(&["C16"], "cut-archive-accepted", format!("an archive that was cut short reads back as {} bytes", d.len())),
            (Out::Ok(d), Is::Missing) => self.die(&["C16"], "missing-archive-accepted", format!("a missing file reads back as {} bytes", d.len())),
            (Out::Err(_), Is::Cut) => probe("cut_archive_refused"),
            (Out::Err(_), Is::Missing) => probe("missing_archive_refused"),
        }
    }
}
fn name(i: &Is) -> &'static str {
    match i {
        Is::Missing => "a missing file",
        Is::Whole(_) => "a whole archive",
        Is::Open(_) => "an unfinished archive",
        Is::Cut => "a cut archive",
    }
}

pub fn generate(p: &mut Plan, r: &mut Rng) {
    p.knobs.short = *r.pick(&[0, 0, 50_000, 300_000, 800_000]);
    p.knobs.eintr = *r.pick(&[0, 0, 20_000, 300_000]);
    if p.knobs.short > 100_000 || p.knobs.eintr > 100_000 {
        // so many small operations need not be slow ones as well
        p.knobs.slow_io = 0;
    }
    let files = r.range(1, FILES as u64);
    let big = r.pct(6);
    let faults = r.pct(if p.prop == "C18" { 90 } else { 55 });
    for _ in 0..r.range(3, 14) {
        let c = r.below(files) as u8;
        let mut push = |op: Op| p.steps.push(Step { c, op });
        if faults && r.pct(30) {
            let mut op = gen::fault(r, "C16");
            if let Op::Fault { rules, cap } = &mut op {
                for x in rules.iter_mut() {
                    x.path = if r.pct(50) { String::new() } else { "archive".into() };
                    if r.pct(50) {
                        x.mask = *r.pick(&[class::WRITE, class::READ, class::OPEN | class::CREATE, class::STAT, class::MUTATING]);
                    }
                }
                if let Some(x) = cap {
                    *x = *r.pick(&[0, 1, 100, 4096, 20_000, 131_072, 300_000]);
                }
            }
            push(op);
        }
        if r.pct(6) {
            let mut s = gen::crash(r, 1);
            s.after = Some(r.range(1, 6));
            push(Op::Crash(s));
        }
        match r.below(10) {
            0..=3 => {
                let size = match r.below(8) {
                    0 => r.below(4),
                    1 => (1 << r.range(2, 17)) + r.below(3) - 1,
                    2 => r.below(300),
                    3 if big => r.range(1_000_000, 3_000_000),
                    3 | 4 => r.range(100_000, 400_000),
                    _ => r.below(60_000),
                };
                push(Op::Compress { size: size as u32, kind: r.below(5) as u8, seed: r.next() });
            }
            4..=6 => push(Op::Decompress),
            7 | 8 => {
                let op = match r.below(6) {
                    0 => Op::Cut { at: r.below(20) as u32, of: 0 },
                    1 => Op::Cut { at: 1, of: 1 }, // one byte short
                    2 => Op::Cut { at: 1, of: 2 },
                    _ => Op::Cut { at: r.below(1000) as u32, of: 1000 },
                };
                push(op);
                push(Op::Decompress);
            }
            _ => push(Op::Remove),
        }
    }
}
