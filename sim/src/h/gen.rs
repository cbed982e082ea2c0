//! Seeded generation of plans: one generator per engine, biased per property.
use super::plan::*;
use crate::os::{class, rng::Rng, vfs::CrashMode, FaultRule};
use std::collections::BTreeMap;

pub fn engine_of(prop: &str, index: u64) -> &'static str {
    match prop {
        "C05" | "C07" => "s2",
        "C08" => if index % 4 == 3 { "s1" } else { "s2" },
        "C14" | "C15" => "s2",
        "C23" => if index % 4 == 3 { "s1" } else { "s2" },
        "C01" | "C04" => if index % 5 == 4 { "s2" } else { "s1" },
        "C03" | "C06" => if index % 4 == 3 { "s2" } else { "s1" },
        "C09" => match index % 4 { 0 => "s1", 1 => "s2", _ => "s3" },
        "C12" | "C13" => "s3",
        "C16" => "s4",
        "C24" => "s5",
        "C18" => if index % 6 == 5 { "s4" } else { "s1" },
        _ => "s1",
    }
}

pub fn generate(prop: &str, seed: u64, index: u64) -> Plan {
    let run_seed = crate::os::rng::mix(seed ^ crate::os::rng::mix(index ^ (hash_str(prop) << 20)));
    let mut r = Rng::new(run_seed, 77);
    let engine = engine_of(prop, index);
    let mut p = Plan {
        engine: engine.into(),
        prop: prop.into(),
        index,
        seed: run_seed,
        knobs: knobs(&mut r, engine),
        steps: vec![],
        params: BTreeMap::new(),
        dev: None,
    };
    match engine {
        "s1" => s1(&mut p, &mut r),
        "s2" => super::s2::generate(&mut p, &mut r),
        "s3" => super::s3::generate(&mut p, &mut r),
        "s4" => super::s4::generate(&mut p, &mut r),
        _ => super::s5::generate(&mut p, &mut r),
    }
    p
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn knobs(r: &mut Rng, engine: &str) -> KnobCfg {
    let conc = engine == "s2";
    KnobCfg {
        switch: *r.pick(if conc { &[2_000, 20_000, 80_000, 200_000, 400_000][..] } else { &[0, 0, 1_000, 10_000, 50_000][..] }),
        random_pick: *r.pick(&[0, 200_000, 1_000_000]),
        slow_io: *r.pick(&[0, 0, 2_000, 30_000]),
        short: 0,
        eintr: 0,
        spurious: *r.pick(&[0, 0, 5_000]),
    }
}

pub fn crash(r: &mut Rng, depth: u8) -> CrashSpec {
    let inside = depth > 0 || r.pct(65);
    CrashSpec {
        mode: if r.pct(75) { CrashMode::Power } else { CrashMode::Kill },
        seed: r.next(),
        after: if inside { Some(*r.pick(&[1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 25, 30, 40, 60, 90])) } else { None },
        before: r.pct(30),
        span: if inside { r.below(4) as u8 } else { 0 },
        reopen: if depth == 0 && r.pct(25) {
            (0..r.range(1, 2)).map(|_| if r.pct(70) { crash(r, 1) } else { failing_open(r) }).collect()
        } else {
            vec![]
        },
        faults: vec![],
    }
}
/// an attempt to reopen after the crash, with a failing disk
fn failing_open(r: &mut Rng) -> CrashSpec {
    let (mask, path) = *r.pick(&[
        (class::READ, ""),
        (class::READ, "MAIN"),
        (class::READ, "MAIN/REF"),
        (class::READ, "MAIN/BLOCKS"),
        (class::READ, "Chain.config"),
        (class::OPEN, ""),
        (class::STAT, ""),
        (class::SYNC, ""),
        (class::SYNC, "conf"),
        (class::SYNC, "Chain.config"),
        (class::WRITE, ""),
        (class::MUTATING, ""),
        (class::RENAME, ""),
        (class::READDIR, ""),
    ]);
    CrashSpec {
        mode: CrashMode::Power,
        seed: r.next(),
        after: None,
        before: false,
        span: 0,
        reopen: vec![],
        faults: vec![FaultRule {
            mask,
            path: path.into(),
            skip: if r.pct(50) { r.below(40) } else { *r.pick(&[0, 0, 1, 2, 3, 5, 8, 13, 21]) },
            count: *r.pick(&[1, 1, 2, 1_000_000]),
            errno: libc::EIO,
        }],
    }
}
fn power_now(r: &mut Rng) -> CrashSpec {
    CrashSpec { mode: CrashMode::Power, seed: r.next(), after: None, before: false, span: 0, reopen: vec![], faults: vec![] }
}
pub fn fault(r: &mut Rng, prop: &str) -> Op {
    let errno = if r.pct(60) { libc::EIO } else { libc::ENOSPC };
    let masks: &[(u32, i32)] = &[
        (class::SYNC, libc::EIO),
        (class::WRITE, errno),
        (class::WRITE | class::SYNC | class::RANGE_SYNC, errno),
        (class::CREATE, errno),
        (class::OPEN, libc::EIO),
        (class::READ, libc::EIO),
        (class::MKDIR, errno),
        (class::UNLINK | class::RMDIR, libc::EIO),
        (class::RENAME, libc::EIO),
        (class::READDIR, libc::EIO),
        (class::STAT, libc::EIO),
        (class::TRUNC, libc::EIO),
        (class::RANGE_SYNC, libc::EIO),
        (u32::MAX, libc::EIO),
        (class::MUTATING, errno),
    ];
    let (mask, errno) = *r.pick(masks);
    let paths: &[&str] = &[
        "", "", "", "Chain.config", "MAIN", "MAIN/BLOCKS", "MAIN/REF", "MAIN/TRANSACTIONS", "SUMMARY", "GASSUMMARY",
        "SUMMARYOLD", "GASSUMMARYOLD", "SUMMARYOLD", "DERIVATIVES", "DERIVATIVES*Chain.config", "Chain.config", "snap", "db", "conf",
    ];
    let path = *r.pick(paths);
    let path = if prop == "C10" && r.pct(40) { *r.pick(&["SUMMARY", "SUMMARYOLD", "GASSUMMARY", ""]) } else { path };
    if r.pct(8) {
        return Op::Fault { rules: vec![], cap: Some(*r.pick(&[0, 0, 4096, 20_000, 100_000])) };
    }
    Op::Fault {
        rules: vec![FaultRule {
            mask,
            path: path.into(),
            skip: if r.pct(50) { 0 } else { *r.pick(&[1, 2, 3, 5, 8, 13, 21, 34]) },
            count: *r.pick(&[1, 1, 1, 2, 5, 1_000_000]),
            errno,
        }],
        cap: None,
    }
}
pub fn amt(r: &mut Rng) -> Amt {
    match r.below(20) {
        0 => Amt::Zero,
        1 => Amt::Bal,
        2 => Amt::BalPlus1,
        3 => Amt::BalMinus1,
        4 => Amt::Max,
        5 => Amt::Room,
        6 => Amt::RoomPlus1,
        7 => Amt::Half,
        8 => Amt::Pow2(r.below(256) as u8),
        9 => { let k = r.below(256) as u8; if r.pct(50) { Amt::Over(k) } else { Amt::Under(k) } }
        10 => Amt::Rnd { bits: r.range(1, 255) as u8, seed: r.next() },
        11..=12 => Amt::N(r.range(1, 9)),
        _ => Amt::N(r.range(1, 1_000_000)),
    }
}
/// amounts that normally succeed
pub fn mild(r: &mut Rng) -> Amt {
    match r.below(12) {
        0 => amt(r),
        1 => Amt::Half,
        2 => Amt::Bal,
        3 => Amt::Under(r.below(100) as u8),
        _ => Amt::N(r.range(1, 1000)),
    }
}
fn dt(r: &mut Rng, wild: bool) -> i64 {
    if wild {
        match r.below(16) {
            0 => 0,
            1 => 599,
            2 => 601,
            3 => -1,
            4 => -(r.range(1, 100_000) as i64),
            5 => -2_000_000_000,
            6 => r.range(1, 100_000_000) as i64,
            7 => 1 << 33,
            8 => {
                if r.pct(20) {
                    i64::MAX
                } else {
                    10_000
                }
            }
            9..=11 => r.range(1, 598) as i64,
            12..=13 => 600,
            _ => r.range(602, 5000) as i64,
        }
    } else {
        match r.below(6) {
            0 => r.range(1, 599) as i64,
            1 | 2 => r.range(601, 3000) as i64,
            _ => 600,
        }
    }
}
/// a transaction with a lot of data, if there is room left
pub fn big(r: &mut Rng, room: &mut u64) -> u8 {
    let d = r.range(251, 255) as u8;
    let cost = super::s1::LARGE[d as usize - 251] as u64 + 400;
    if cost <= *room {
        *room -= cost;
        d
    } else {
        1
    }
}
const GOOD: &[Pow] = &[Pow::Good, Pow::Good, Pow::Better];
const ANY: &[Pow] = &[Pow::Good, Pow::Good, Pow::Good, Pow::Better, Pow::Bad, Pow::WrongTxs, Pow::Stale];

fn s1(p: &mut Plan, r: &mut Rng) {
    // weights: emit addblock ledger gasledger tx retx flush flushmain demit dadd dflush sleep restart crash fault probe mismatch
    let prop = p.prop.clone();
    let mut w: [u64; 17] = match prop.as_str() {
        "C01" => [10, 2, 6, 3, 4, 1, 8, 2, 0, 0, 0, 3, 2, 7, 0, 1, 0],
        "C02" => [10, 1, 4, 2, 2, 0, 5, 1, 2, 0, 1, 3, 2, 10, 0, 5, 0],
        "C03" => [12, 8, 2, 0, 1, 0, 3, 2, 0, 0, 0, 2, 4, 7, 2, 1, 2],
        "C04" => [5, 1, 0, 0, 0, 0, 5, 1, 14, 3, 8, 2, 3, 7, 0, 1, 0],
        "C06" => [2, 0, 18, 12, 2, 0, 4, 0, 0, 0, 0, 4, 2, 6, 0, 0, 0],
        "C10" => [24, 0, 6, 5, 3, 0, 2, 0, 0, 0, 0, 1, 3, 4, 5, 0, 3],
        "C11" => [26, 0, 1, 0, 0, 0, 1, 0, 8, 0, 0, 0, 1, 1, 0, 0, 3],
        "C17" => [1, 0, 10, 5, 3, 0, 5, 1, 0, 0, 0, 2, 10, 5, 0, 0, 0],
        "C18" => [6, 1, 4, 3, 2, 0, 9, 2, 4, 0, 4, 1, 8, 2, 15, 2, 0],
        "C19" => [3, 0, 2, 3, 12, 3, 4, 1, 0, 0, 0, 4, 3, 7, 0, 0, 0],
        "C08" => [3, 0, 4, 6, 18, 3, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0],
        "C23" => [14, 0, 3, 2, 2, 0, 8, 4, 3, 0, 4, 1, 2, 4, 0, 0, 0],
        "C09" => [3, 1, 3, 5, 10, 14, 6, 1, 0, 0, 0, 2, 3, 5, 0, 0, 0],
        _ => [10, 3, 6, 3, 3, 1, 5, 1, 3, 1, 2, 2, 3, 5, 2, 1, 1],
    };
    // swarm: every run uses its own mix
    for x in w.iter_mut() {
        *x = match r.below(6) {
            0 => *x / 3,
            1 => *x * 2,
            _ => *x,
        };
    }
    if prop != "C18" && prop != "C10" && r.pct(35) {
        w[14] = 0;
    }
    let total: u64 = w.iter().sum();
    let n = match r.below(10) {
        0..=3 => r.range(3, 10),
        4..=8 => r.range(8, 24),
        _ => r.range(24, 45),
    };
    let wild = prop == "C11" || (prop != "C12" && r.pct(15));
    let trend = r.below(4);
    let pows = if prop == "C11" || r.pct(20) { ANY } else { GOOD };
    let s = &mut p.steps;
    let mut push = |op: Op| s.push(Step { c: 0, op });
    // first start under fire
    if r.pct(if prop == "C02" || prop == "C17" { 30 } else { 8 }) {
        push(Op::Crash(crash(r, 0)));
    } else if prop == "C18" && r.pct(25) {
        push(fault(r, &prop));
    }
    // balances to play with
    let funded = !matches!(prop.as_str(), "C03" | "C04" | "C11") || r.pct(30);
    if funded {
        let k = r.range(1, 3);
        for _ in 0..k {
            let a = r.below(5) as u8;
            if r.pct(60) {
                push(Op::Send { gas: false, from: 0, to: a, v: Amt::N(r.range(1, 1 << 40)) });
            } else {
                push(Op::Add { gas: false, a, v: Amt::N(r.range(1, 1 << 40)) });
            }
            if w[4] > 0 || r.pct(50) {
                push(Op::Add { gas: true, a, v: Amt::N(625_000_000_000 * r.range(100, 2000)) });
            }
        }
    }
    let max_addr = r.range(2, 6);
    let mut salt = 1u32;
    // scale: long chains, many accounts, long lists, large transactions
    if r.pct(3) {
        push(Op::Prefill { n: *r.pick(&[20, 60, 120, 126, 127, 250, 254, 255, 255, 258, 300]), salt: 1 << 20 });
        // blocks that reach the disk without the config that counts them
        if matches!(prop.as_str(), "C01" | "C02" | "C03") && r.pct(50) {
            push(Op::Sleep { ms: r.range(500, 1500) as u32 });
            push(Op::Crash(CrashSpec { mode: if r.pct(50) { CrashMode::Power } else { CrashMode::Kill }, seed: r.next(), after: None, before: false, span: 0, reopen: vec![], faults: vec![] }));
            push(Op::Flush);
        }
    }
    if w[8] > 0 && r.pct(3) {
        push(Op::DPrefill { owner: deriv_owner(r), n: *r.pick(&[20, 126, 127, 253, 255, 256, 258, 300]), salt: r.below(1000) as u32 });
        if prop == "C04" && r.pct(30) {
            push(Op::Sleep { ms: r.range(500, 1500) as u32 });
            push(Op::Crash(CrashSpec { mode: if r.pct(50) { CrashMode::Power } else { CrashMode::Kill }, seed: r.next(), after: None, before: false, span: 0, reopen: vec![], faults: vec![] }));
        }
    }
    if prop == "C11" && r.pct(20) {
        push(Op::ClockWalk { n: r.range(20, 1500) as u16, seed: r.next() });
    }
    if r.pct(if prop == "C10" { 6 } else { 2 }) {
        push(Op::Bulk { n: *r.pick(&[5, 20, 60, 126, 180]), seed: r.next() });
    }
    // sled loses values above a quarter of a segment (a known finding): only few runs go there
    let vast = (prop == "C01" || prop == "C02") && r.pct(1);
    let long = vast || r.pct(8);
    let large = w[4] > 0 && r.pct(6);
    if long || large {
        p.params.insert("segment_kib".into(), 512);
    }
    let mut room: u64 = if vast { u64::MAX } else { 110_000 };
    if large {
        for a in 0..max_addr as u8 {
            push(Op::Add { gas: true, a, v: Amt::N(625_000_000_000 * 100_000) });
        }
    }
    if vast {
        for k in 0..r.range(6, 12) {
            push(Op::Emit { founder: (k % 6) as u8, dt: 600, ntx: 255, pow: Pow::Good, mismatch: false });
        }
        push(Op::Flush);
    }
    let mut list = |r: &mut Rng, n: u8, room: &mut u64| {
        if long && r.pct(if vast { 95 } else { 30 }) {
            let k = if vast { 255 } else { *r.pick(&[20, 40, 42, 43, 85, 86, 100, 171]) };
            // an added block brings its transactions along
            let cost = super::s1::many(k) * 32;
            if cost <= *room {
                *room -= cost;
                return k;
            }
        }
        n
    };
    for _ in 0..n {
        let mut x = r.below(total.max(1));
        let mut k = 0;
        while k < w.len() - 1 && x >= w[k] {
            x -= w[k];
            k += 1;
        }
        let a = r.below(max_addr) as u8;
        let b = r.below(max_addr) as u8;
        match k {
            0 => {
                let d = match trend {
                    1 if wild => -(r.below(3) as i64) + r.below(500) as i64,
                    2 if wild => r.range(601, 700) as i64,
                    _ => dt(r, wild),
                };
                push(Op::Emit { founder: a, dt: d, ntx: { let n = r.range(1, 5) as u8; list(r, n, &mut room) }, pow: *r.pick(pows), mismatch: false })
            }
            // one of the stores fails in the background, then a block comes
            1 if matches!(prop.as_str(), "C03" | "C18") && r.pct(10) => {
                let path = *r.pick(&["MAIN/REF", "MAIN/REF", "MAIN/BLOCKS", "MAIN/TRANSACTIONS"]);
                for k in 0..2 {
                    salt += 1;
                    let ntx = r.below(3) as u8;
                    push(Op::AddBlock { fit: Fit::Next, ntx, salt });
                    if k == 0 {
                        push(Op::Fault {
                            rules: vec![FaultRule { mask: class::WRITE, path: path.into(), skip: 0, count: 1_000_000, errno: libc::EIO }],
                            cap: None,
                        });
                        push(Op::Sleep { ms: *r.pick(&[600, 1500]) });
                    }
                }
            }
            1 => push(Op::AddBlock {
                fit: *r.pick(&[Fit::Next, Fit::Next, Fit::Past, Fit::Tip, Fit::Future, Fit::FarFuture]),
                ntx: { let n = r.below(3) as u8; list(r, n, &mut room) },
                salt: { salt += 1; salt },
            }),
            2 | 3 => {
                let gas = k == 3;
                let v = if r.pct(60) { mild(r) } else { amt(r) };
                push(match r.below(8) {
                    0..=1 => Op::Add { gas, a, v },
                    2..=3 => Op::Sub { gas, a, v },
                    4 if !gas && r.pct(50) => Op::Set { a, v },
                    _ => Op::Send { gas, from: a, to: b, v },
                })
            }
            4 => {
                salt += 1;
                let s2 = if r.pct(15) { salt.saturating_sub(1) } else { salt };
                push(Op::Tx { from: a, to: b, v: if r.pct(70) { mild(r) } else { amt(r) }, salt: s2, data: if large && r.pct(40) { big(r, &mut room) } else if r.pct(50) { 0 } else { r.below(200) as u8 } })
            }
            5 => push(Op::ReTx { idx: r.below(12) as u8 }),
            6 => push(Op::Flush),
            7 => push(Op::FlushMain),
            8 => push(Op::DEmit { owner: deriv_owner(r), dt: dt(r, wild), pow: *r.pick(pows) }),
            9 => { salt += 1; push(Op::DAdd { owner: deriv_owner(r), fit: *r.pick(&[Fit::Past, Fit::Tip, Fit::Future, Fit::FarFuture]), salt }) }
            10 => {
                // a config of an empty chain that outlives the block it is anchored to
                let early = prop == "C04" && r.pct(12);
                if early {
                    push(Op::Emit { founder: a, dt: 600, ntx: 1, pow: Pow::Good, mismatch: false });
                }
                let owner = deriv_owner(r);
                push(if early && r.pct(50) { Op::DAdd { owner, fit: Fit::FarFuture, salt } } else { Op::DFlush { owner } });
                if early {
                    // or of a chain whose first block comes when the main chain has moved on
                    if r.pct(50) {
                        for _ in 0..r.below(3) {
                            push(Op::Emit { founder: a, dt: 600, ntx: 1, pow: Pow::Good, mismatch: false });
                        }
                        push(Op::DEmit { owner, dt: 600, pow: Pow::Good });
                        if r.pct(70) {
                            push(Op::DFlush { owner });
                        }
                    }
                    push(Op::Crash(power_now(r)));
                }
            }
            11 => push(Op::Sleep { ms: *r.pick(&[1, 200, 600, 1500, 4000]) }),
            12 => push(Op::Restart),
            13 => {
                let c = crash(r, 0);
                let inside = c.after.is_some();
                push(Op::Crash(c));
                // place the crash inside something that writes
                if inside && r.pct(60) {
                    match r.below(if prop == "C10" { 2 } else { 7 }) {
                        0 | 1 => {
                            push(Op::Emit { founder: a, dt: 600, ntx: 1, pow: Pow::Good, mismatch: false });
                        }
                        2 if w[10] > 0 => push(Op::DFlush { owner: deriv_owner(r) }),
                        3 => push(Op::FlushMain),
                        _ => push(Op::Flush),
                    }
                }
            }
            14 => {
                let mut f = fault(r, &prop);
                if prop == "C18" && w[10] > 0 && r.pct(20) {
                    // aimed at a derivative chain, in its flush or when it is opened again
                    let owner = deriv_owner(r);
                    if r.pct(60) {
                        push(Op::DFlush { owner });
                    }
                    if let Op::Fault { rules, .. } = &mut f {
                        for x in rules {
                            x.path = r.pick(&["DERIVATIVES", "DERIVATIVES*Chain.config", "DERIVATIVES*Chain.config", "DERIVATIVES*Chain.new"]).to_string();
                            x.skip = 0;
                        }
                    }
                    push(f);
                    if r.pct(50) {
                        push(Op::Restart);
                    } else {
                        push(Op::DFlush { owner });
                        if r.pct(50) {
                            push(Op::Crash(power_now(r)));
                        }
                    }
                    continue;
                }
                push(f);
                match r.below(10) {
                    0..=3 => push(Op::Flush),
                    4..=5 => push(Op::Restart),
                    6 => push(Op::FlushMain),
                    7 if w[10] > 0 => push(Op::DFlush { owner: deriv_owner(r) }),
                    8 => {}
                    _ => push(Op::Emit { founder: a, dt: 600, ntx: 1, pow: Pow::Good, mismatch: false }),
                }
                // was the success true?
                if prop == "C18" && r.pct(30) {
                    push(Op::Crash(power_now(r)));
                }
            }
            15 => push(Op::Probe),
            _ => push(Op::Emit { founder: a, dt: 600, ntx: 1, pow: Pow::Good, mismatch: true }),
        }
    }
    // a strong ending: flush, lose everything that was not synced, come back, serve
    match r.below(4) {
        0 => {}
        1 => {
            push(Op::Flush);
            push(Op::Crash(CrashSpec { mode: CrashMode::Power, seed: r.next(), after: None, before: false, span: 0, reopen: vec![], faults: vec![] }));
            push(Op::Probe);
        }
        2 => {
            push(Op::Crash(crash(r, 0)));
            push(Op::Flush);
            push(Op::Probe);
        }
        _ => {
            push(Op::Restart);
            push(Op::Probe);
        }
    }
    if prop == "C23" {
        for x in p.steps.iter_mut() {
            let far = match x.op {
                Op::Emit { .. } => 60,
                Op::Flush | Op::FlushMain | Op::DFlush { .. } => 18,
                _ => continue,
            };
            if r.pct(55) {
                let what = Box::new(x.op.clone());
                x.op = Op::Abandon { what, polls: r.range(1, far) as u8, hold: if r.pct(50) { 0 } else { r.below(6) as u8 } };
            }
        }
    }
}

/// owners whose keys differ in their first, their last or a middle byte only
fn deriv_owner(r: &mut Rng) -> u8 {
    *r.pick(&[1, 1, 2, 2, 3, 3, 5, 6])
}
