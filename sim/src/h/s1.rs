//! Engine S1: one node, one caller, every kind of crash, restart and disk error; the oracle is a
//! model that keeps every version each store went through since its last acknowledged flush.
use super::model::*;
use super::plan::*;
use super::world::*;
use crate::os::{self, vfs::CrashMode, FaultRule};
use blockchaintree::block::{self, Block, BlockArc};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::{DerivativeChain, MainChain};
use blockchaintree::static_values::*;
use blockchaintree::tools;
use blockchaintree::transaction::{Transaction, Transactionable};
use primitive_types::U256;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const DIR: &str = "/sim/n0";
pub const DISK: &str = "n0";

#[derive(Clone, Debug)]
pub struct Blk {
    pub dump: Vec<u8>,
    pub hash: H,
    pub prev: H,
    pub diff: H,
    pub ts: u64,
    pub emitted: bool,
}
pub fn blk_of(b: &dyn Block, emitted: bool) -> Blk {
    let dump = b.dump().unwrap();
    let hash = sha(&[&dump]);
    let i = b.get_info();
    Blk { dump, hash, prev: i.previous_hash, diff: i.difficulty, ts: i.timestamp, emitted }
}

pub type Bal = BTreeMap<u8, U256>;
/// every state a ledger went through; `wm`: the one that an acknowledged flush made durable
#[derive(Clone, Debug)]
pub struct Store {
    pub vers: Vec<Bal>,
    pub wm: usize,
}
impl Store {
    pub fn new(b: Bal) -> Store {
        Store { vers: vec![b], wm: 0 }
    }
    pub fn cur(&self) -> &Bal {
        self.vers.last().unwrap()
    }
    pub fn get(&self, a: u8) -> U256 {
        self.cur().get(&a).copied().unwrap_or_default()
    }
    pub fn push(&mut self, b: Bal) -> usize {
        self.vers.push(b);
        self.vers.len() - 1
    }
    fn flushed(&mut self) {
        self.wm = self.vers.len() - 1;
    }
}
pub fn same_balances(x: &Bal, y: &Bal) -> bool {
    (0..naddr())
        .all(|a| x.get(&a).copied().unwrap_or_default() == y.get(&a).copied().unwrap_or_default())
}
pub fn show(b: &Bal) -> String {
    let v: Vec<String> =
        b.iter().filter(|x| !x.1.is_zero()).map(|(a, v)| format!("{a}:{v}")).collect();
    format!("{{{}}}", v.join(" "))
}

#[derive(Clone, Debug)]
struct Sub {
    hash: H,
    cv: Option<usize>,
    gv: Option<usize>,
    flushed: bool,
    /// the submission itself asked a database to flush
    own_flush: bool,
}
#[derive(Clone, Debug, Default)]
struct Dv {
    blocks: Vec<Blk>,
    wm: usize,
    anchor: Option<H>,
    /// the anchor that a successful flush of this chain recorded
    anchored: Option<H>,
    lost: Vec<Blk>,
}
struct Model {
    main: Vec<Blk>,
    wm: usize,
    lost: Vec<Blk>,
    coins: Store,
    gas: Store,
    txs: Vec<(Transaction, H, Vec<u8>)>,
    present: BTreeSet<H>,
    flushed_tx: BTreeSet<H>,
    subs: Vec<Sub>,
    dv: BTreeMap<u8, Dv>,
    /// the ledgers right before the latest epoch block, and that block's height
    snap: Option<(Bal, Bal, u64)>,
    epochs: u64,
    /// epoch blocks: height, and the versions of both ledgers which they leave behind
    settled: Vec<(u64, usize, usize)>,
}

pub struct W {
    rt: Option<tokio::runtime::Runtime>,
    node: Option<BlockChainTree>,
    dch: BTreeMap<u8, DerivativeChain>,
    m: Model,
    pending: Option<(CrashSpec, u8)>,
    rules: Option<(Vec<FaultRule>, Option<u64>)>,
    /// faults for the opening of derivative chains
    deriv_rules: Option<(Vec<FaultRule>, Option<u64>)>,
    fatal: bool,
    bpe: u64,
    owners: BTreeSet<u8>,
    /// the owners whose chain was opened at some time
    known: BTreeSet<u8>,
    opened: bool,
    /// disk errors met until the node was last opened
    errs: u64,
    /// a log could not be read while a node was opening
    log_unread: bool,
    crashes: u64,
    /// what a restart left is being looked at
    adopting: bool,
}

const LEDGER_TAGS: &[&str] = &["C06"];

pub fn run(plan: &Plan) {
    os::mount(DISK);
    let mut w = W {
        rt: Some(rt()),
        node: None,
        dch: BTreeMap::new(),
        known: BTreeSet::new(),
        m: Model {
            main: vec![],
            wm: 0,
            lost: vec![],
            coins: Store::new(Bal::from([(ROOT, *COINS_PER_CYCLE)])),
            gas: Store::new(Bal::new()),
            txs: vec![],
            present: BTreeSet::new(),
            flushed_tx: BTreeSet::new(),
            subs: vec![],
            dv: BTreeMap::new(),
            snap: None,
            epochs: 0,
            settled: vec![],
        },
        pending: None,
        rules: None,
        deriv_rules: None,
        fatal: false,
        bpe: BLOCKS_PER_EPOCH as u64,
        owners: plan
            .steps
            .iter()
            .filter_map(|s| match s.op {
                Op::DEmit { owner, .. } | Op::DAdd { owner, .. } | Op::DFlush { owner } => Some(owner),
                _ => None,
            })
            .collect(),
        opened: false,
        errs: 0,
        log_unread: false,
        crashes: 0,
        adopting: false,
    };
    let most = plan.steps.iter().map(|s| if let Op::Bulk { n, .. } = s.op { n } else { 0 }).max().unwrap_or(0);
    set_naddr(NADDR as u8 + most.min(200));
    // the very first steps may arm a crash or a fault for the first start
    let mut i = 0;
    while i < plan.steps.len() && matches!(plan.steps[i].op, Op::Crash(_) | Op::Fault { .. }) {
        let op = plan.steps[i].op.clone();
        w.arm(&op);
        i += 1;
    }
    w.first_start();
    for s in &plan.steps[i..] {
        if w.fatal || violated() {
            break;
        }
        w.step(&s.op);
    }
    if !w.fatal && !violated() {
        w.finish();
    }
    w.close();
    if let Some(rt) = w.rt.take() {
        drop(rt);
    }
}

impl W {
    fn mc(&self) -> MainChain {
        self.node.as_ref().unwrap().get_main_chain()
    }
    fn fail(&mut self, props: &[&str], class: &str, detail: String) {
        violate(props, class, detail);
    }
    fn die(&mut self, props: &[&str], class: &str, detail: String) {
        if detail.contains(SLED_DROP) {
            violate(&["C18"], SLED_DROP_KNOWN, detail);
        } else if self.log_unread {
            violate(&["C18"], SLED_READ_KNOWN, format!("{class}: {detail}"));
        } else if os::sim().large_values > 0 && self.crashes > 0 && (class.starts_with("reopen") || self.adopting) {
            violate(&["C01", "C02"], SLED_BLOB_KNOWN, format!("{class}: {detail}"));
        } else {
            let mut props = props.to_vec();
            if Self::fault_total() > 0 && !props.contains(&"C18") {
                // the disk had failed before: this is the damage
                props.push("C18");
            }
            violate(&props, class, detail);
        }
        self.fatal = true;
    }

    fn arm(&mut self, op: &Op) {
        match op {
            Op::Crash(c) => {
                if let Some(n) = c.after {
                    os::arm_crash(DISK, n.max(1), c.mode, c.seed, c.before);
                }
                self.pending = Some((c.clone(), c.span));
            }
            Op::Fault { rules, cap } => self.rules = Some((rules.clone(), *cap)),
            _ => {}
        }
    }
    /// put the armed faults into force for one operation; returns whether any are
    fn faults_on(&mut self) -> bool {
        if let Some((r, cap)) = self.rules.take() {
            os::set_rules(DISK, r);
            if let Some(c) = cap {
                let d = os::disk(DISK);
                d.capacity = d.used + c;
            }
            return true;
        }
        false
    }
    fn fault_total() -> u64 {
        os::sim()
            .fault_counts
            .iter()
            .filter(|(k, _)| k.ends_with(":EIO") || k.contains("ENOSPC") || k.ends_with(":EMFILE") || k.contains("(full)"))
            .map(|x| *x.1)
            .sum()
    }
    fn faults_off(&mut self) {
        os::clear_rules(DISK);
        os::disk(DISK).capacity = u64::MAX;
    }
    fn crashed(&self) -> bool {
        os::crashed(DISK)
    }

    // ------------------------------------------------------------ open and close
    fn close(&mut self) {
        self.dch.clear();
        if let Some(n) = self.node.take() {
            if let Out::Panic(e) = attempt(|| {
                drop(n);
                Ok::<_, ()>(())
            }) {
                os::note(|| format!("panic while closing: {e}"));
            }
        }
    }
    fn open(&mut self) -> Out<()> {
        let doubt = Self::fault_total() > self.errs;
        for k in 0..4 {
            self.errs = Self::fault_total();
            let unread = || os::sim().fault_counts.get("failed_reads_of_a_log").copied().unwrap_or(0);
            let before = unread();
            let r = attempt(|| BlockChainTree::new(DIR));
            self.log_unread |= unread() > before;
            match r {
                Out::Ok(n) => {
                    self.node = Some(n);
                    return Out::Ok(());
                }
                // a database that failed may keep its lock until its threads are gone: give them
                // time, then start a new process
                Out::Err(e) if doubt && k < 3 && e.contains("lock") && !self.crashed() => {
                    os::sleep_ns(2_000_000_000);
                    os::progress();
                    if k == 1 {
                        probe("process_restarted_to_reopen");
                        os::disarm_crash(DISK);
                        os::crash_now(DISK, CrashMode::Kill, 0);
                        os::remount_after_crash(DISK);
                    }
                }
                Out::Err(e) => return Out::Err(e),
                Out::Panic(e) => return Out::Panic(e),
            }
        }
        Out::Err("the lock is never released".into())
    }
    fn first_start(&mut self) {
        let fault = self.faults_on();
        let f0 = Self::fault_total();
        let r = self.open();
        let fired = Self::fault_total() > f0;
        self.faults_off();
        hist(|| format!("first start: {}", r.tag()));
        if self.crashed() {
            probe("crash_in_first_start");
            self.recover();
            return;
        }
        match r {
            Out::Ok(()) => {}
            _ if fault && fired => {
                probe("first_start_failed_by_fault");
                if r.is_panic() {
                    self.die(&["C18"], "panic-on-disk-error", format!("first start: {}", r.why()));
                    return;
                }
                self.close();
                let r = self.open();
                if !r.is_ok() {
                    self.die(&["C18", "C02"], "open-after-fault", format!("opening after a failed first start: {}", r.why()));
                    return;
                }
            }
            _ => {
                self.die(&["C02", "C17"], "first-start", format!("first start: {}", r.why()));
                return;
            }
        }
        self.adopt(Why::Graceful);
        self.tick_pending();
    }

    /// the crash has happened: throw the old process away and open what the disk holds
    fn recover(&mut self) {
        self.crashes += 1;
        let spec = self.pending.take().map(|p| p.0);
        let op = os::disk(DISK).crash_op.clone();
        let mode = spec.as_ref().map(|s| s.mode).unwrap_or(CrashMode::Power);
        hist(|| format!("crash {mode:?} {op}"));
        probe(&format!("crash:{}", if op.starts_with("between") { "between" } else { "inside" }));
        self.faults_off();
        self.close();
        os::remount_after_crash(DISK);
        for c in spec.map(|s| s.reopen).unwrap_or_default() {
            if !c.faults.is_empty() {
                let f0 = Self::fault_total();
                os::set_rules(DISK, c.faults.clone());
                let r = self.open();
                self.faults_off();
                let fired = Self::fault_total() > f0;
                hist(|| format!("reopen while the disk fails (fired: {fired}): {}", r.tag()));
                match r {
                    Out::Ok(()) => {
                        if fired {
                            probe("recovered_in_spite_of_a_fault");
                        }
                        return self.adopt(if fired { Why::Fault } else { Why::Crash });
                    }
                    Out::Err(_) if fired => {
                        probe("recovery_refused_by_fault");
                        self.close();
                        continue;
                    }
                    o => {
                        self.die(if fired { &["C18"] } else { &["C02", "C01"] }, if fired { "panic-on-disk-error" } else { "reopen-after-crash" }, format!("reopening after a crash: {}", o.why()));
                        return;
                    }
                }
            }
            let Some(n) = c.after else { continue };
            os::arm_crash(DISK, n.max(1), c.mode, c.seed, c.before);
            let r = self.open();
            os::disarm_crash(DISK);
            if self.crashed() {
                probe("crash_during_recovery");
                let op = os::disk(DISK).crash_op.clone();
                hist(|| format!("crash during recovery {:?} {op}", c.mode));
                self.close();
                os::remount_after_crash(DISK);
            } else {
                if let Out::Ok(()) = r {
                    self.close();
                } else {
                    self.die(&["C02", "C01"], "reopen-after-crash", format!("reopening after a crash: {}", r.why()));
                    return;
                }
            }
        }
        let r = self.open();
        hist(|| format!("reopen: {}", r.tag()));
        if !r.is_ok() {
            let mut t = vec!["C02"];
            if self.opened {
                t.push("C01");
                t.push("C17");
            }
            if self.m.dv.values().any(|d| d.wm > 0) {
                t.push("C04");
            }
            if op.contains("SUMMARYOLD") {
                t.push("C10");
            }
            self.die(&t, "reopen-after-crash", format!("reopening after a crash ({op}): {}", r.why()));
            return;
        }
        self.adopt(Why::Crash);
    }

    fn tick_pending(&mut self) {
        if self.fatal {
            return;
        }
        if self.crashed() {
            self.recover();
            return;
        }
        if let Some((c, left)) = &mut self.pending {
            if c.after.is_none() || *left == 0 {
                let (mode, seed) = (c.mode, c.seed);
                os::disarm_crash(DISK);
                os::crash_now(DISK, mode, seed);
                os::count_fault(match mode {
                    CrashMode::Kill => "crash_between_ops:process_kill",
                    CrashMode::Power => "crash_between_ops:power_loss",
                });
                self.recover();
            } else {
                *left -= 1;
            }
        }
    }

    // ------------------------------------------------------------ observing
    fn balances(&mut self, gas: bool) -> Option<Bal> {
        let n = self.node.as_ref().unwrap();
        let mut b = Bal::new();
        for a in 0..naddr() {
            let r = attempt(|| if gas { n.get_gas(&addr(a)) } else { n.get_amount(&addr(a)) });
            match r {
                Out::Ok(v) => {
                    b.insert(a, v);
                }
                o => {
                    let why = o.why();
                    self.die(&["C02", "C06", "C01"], "balance-unreadable", format!("reading the {} balance of {a}: {why}", led(gas)));
                    return None;
                }
            }
        }
        Some(b)
    }

    /// structural check of the main chain as it can be read; returns the raw blocks
    fn read_main(&mut self) -> Option<Vec<Blk>> {
        let mc = self.mc();
        let h = mc.get_height();
        if h.is_zero() {
            self.die(&["C03", "C02"], "no-genesis", "the chain holds no genesis block".into());
            return None;
        }
        if h > U256::from(10_000) {
            self.die(&["C03", "C01", "C02"], "height-absurd", format!("height {h}"));
            return None;
        }
        let n = h.as_u64();
        let mut v: Vec<Blk> = vec![];
        for i in 0..n {
            let raw = match attempt(|| mc.find_raw_by_height(&U256::from(i))) {
                Out::Ok(Some(r)) => r,
                o => {
                    let w = match o {
                        Out::Ok(None) => "none".into(),
                        o => o.why(),
                    };
                    self.die(&["C03", "C01", "C02"], "hole-in-chain", format!("height is {n} but block {i} reads as {w}"));
                    return None;
                }
            };
            let b = match attempt(|| mc.find_by_height(&U256::from(i))) {
                Out::Ok(Some(b)) => b,
                o => {
                    self.die(&["C03", "C02"], "block-unreadable", format!("block {i} does not decode: {}", match o { Out::Ok(_) => "none".into(), o => o.why() }));
                    return None;
                }
            };
            if b.get_info().height != U256::from(i) {
                self.die(&["C03"], "wrong-height-recorded", format!("block at height {i} says it has height {}", b.get_info().height));
                return None;
            }
            let blk = blk_of(&*b, false);
            if blk.dump != raw {
                self.die(&["C03", "C13"], "raw-differs", format!("block {i}: decoded block encodes differently"));
                return None;
            }
            v.push(blk);
        }
        // look-up by hash
        for (i, b) in v.iter().enumerate() {
            match attempt(|| mc.find_raw_by_hash(&b.hash)) {
                Out::Ok(Some(r)) if r == b.dump => {}
                o => {
                    let w = match &o {
                        Out::Ok(None) => "nothing".to_string(),
                        Out::Ok(Some(_)) => "another block".to_string(),
                        o => o.why(),
                    };
                    let t: &[&str] = if self.adopting && i < self.m.wm { &["C03", "C01"] } else { &["C03"] };
                    self.die(t, "hash-lookup", format!("block {i} looked up by its hash gives {w} (height {n})"));
                    return None;
                }
            }
            match attempt(|| mc.find_by_hash(&b.hash)) {
                Out::Ok(Some(x)) if x.dump().ok().as_deref() == Some(&b.dump[..]) => {}
                _ => {
                    self.die(&["C03"], "hash-lookup", format!("block {i}: find_by_hash disagrees"));
                    return None;
                }
            }
        }
        // nothing at or above the height
        let one = U256::one();
        for k in [h, h + 1, h + 2, h + 7, one << 32, one << 40, one << 64, one << 128, (one << 255) + h - 1, U256::MAX] {
            match attempt(|| mc.find_raw_by_height(&k)) {
                Out::Ok(None) => {}
                o => {
                    self.die(&["C03"], "block-above-tip", format!("height is {n} but reading height {k} gives {}", match o { Out::Ok(_) => "a block".into(), o => o.why() }));
                    return None;
                }
            }
            match attempt(|| mc.find_by_height(&k)) {
                Out::Ok(None) => {}
                _ => {
                    self.die(&["C03"], "block-above-tip", format!("height is {n} but find_by_height({k}) gives something"));
                    return None;
                }
            }
        }
        // the tip
        match attempt(|| mc.get_last_raw_block()) {
            Out::Ok(Some(r)) if r == v[v.len() - 1].dump => {}
            o => {
                self.die(&["C03", "C02"], "last-block", format!("get_last_raw_block is not block {}: {}", n - 1, o.tag()));
                return None;
            }
        }
        match attempt(|| mc.get_last_block()) {
            Out::Ok(Some(b)) if b.dump().ok().as_deref() == Some(&v[v.len() - 1].dump[..]) => {}
            o => {
                self.die(&["C03", "C02"], "last-block", format!("get_last_block is not block {}: {}", n - 1, o.tag()));
                return None;
            }
        }
        // hashes of blocks a crash removed, and hashes of nothing
        let lost: Vec<Blk> = self.m.lost.clone();
        for l in lost.iter().filter(|l| !v.iter().any(|b| b.hash == l.hash)) {
            match attempt(|| mc.find_raw_by_hash(&l.hash)) {
                Out::Ok(None) => {}
                o => {
                    let w = match o {
                        Out::Ok(Some(r)) if r == l.dump => "that block, which is not in the chain".to_string(),
                        Out::Ok(_) => "a different block".to_string(),
                        o => o.why(),
                    };
                    self.die(&["C03"], "stale-hash-reference", format!("the hash {} of a block a crash removed resolves to {w}", hex8(&l.hash)));
                    return None;
                }
            }
        }
        if !matches!(attempt(|| mc.find_by_hash(&[7; 32])), Out::Ok(None)) {
            self.die(&["C03"], "hash-lookup", "a hash of nothing resolves".into());
            return None;
        }
        Some(v)
    }

    fn read_deriv(&mut self, o: u8) -> Option<Vec<Blk>> {
        let c = self.dch[&o].clone();
        let h = c.get_height();
        if h > U256::from(10_000) {
            self.die(&["C04"], "deriv-height-absurd", format!("height {h}"));
            return None;
        }
        let n = h.as_u64();
        let mut v: Vec<Blk> = vec![];
        for i in 0..n {
            let b = match attempt(|| c.find_by_height(&U256::from(i))) {
                Out::Ok(Some(b)) => b,
                o2 => {
                    self.die(&["C04"], "deriv-hole", format!("owner {o}: height is {n} but block {i} reads as {}", match o2 { Out::Ok(_) => "none".into(), x => x.why() }));
                    return None;
                }
            };
            if b.get_info().height != U256::from(i) {
                self.die(&["C04"], "deriv-wrong-height", format!("owner {o}: block at {i} says {}", b.get_info().height));
                return None;
            }
            let blk = blk_of(&*b, false);
            match attempt(|| c.find_raw_by_height(&U256::from(i))) {
                Out::Ok(Some(r)) if r == blk.dump => {}
                _ => {
                    self.die(&["C04"], "deriv-raw-differs", format!("owner {o}: block {i}"));
                    return None;
                }
            }
            v.push(blk);
        }
        for (i, b) in v.iter().enumerate() {
            match attempt(|| c.find_by_hash(&b.hash)) {
                Out::Ok(Some(x)) if x.dump().ok().as_deref() == Some(&b.dump[..]) => {}
                r => {
                    self.die(&["C04"], "deriv-hash-lookup", format!("owner {o}: block {i} by hash gives {}", r.tag()));
                    return None;
                }
            }
            match attempt(|| c.find_raw_by_hash(&b.hash)) {
                Out::Ok(Some(x)) if x == b.dump => {}
                r => {
                    self.die(&["C04"], "deriv-hash-lookup", format!("owner {o}: raw block {i} by hash gives {}", r.tag()));
                    return None;
                }
            }
        }
        let one = U256::one();
        for k in [h, h + 1, h + 3, one << 32, one << 64, one << 128, U256::MAX] {
            if !matches!(attempt(|| c.find_raw_by_height(&k)), Out::Ok(None)) {
                self.die(&["C04"], "deriv-block-above-tip", format!("owner {o}: height is {n} but {k} reads as something"));
                return None;
            }
        }
        for i in 1..v.len() {
            if v[i].prev != v[i - 1].hash {
                self.die(&["C04"], "deriv-broken-link", format!("owner {o}: block {i} does not name block {}", i - 1));
                return None;
            }
        }
        match attempt(|| c.get_last_block()) {
            Out::Ok(None) if v.is_empty() => {}
            Out::Ok(Some(b)) if !v.is_empty() && b.dump().ok().as_deref() == Some(&v[v.len() - 1].dump[..]) => {}
            r => {
                self.die(&["C04"], "deriv-last-block", format!("owner {o}: get_last_block: {}", r.tag()));
                return None;
            }
        }
        let lost: Vec<Blk> = self.m.dv.get(&o).map(|d| d.lost.clone()).unwrap_or_default();
        for l in lost.iter().filter(|l| !v.iter().any(|b| b.hash == l.hash)) {
            if !matches!(attempt(|| c.find_raw_by_hash(&l.hash)), Out::Ok(None)) {
                self.die(&["C04"], "deriv-stale-hash", format!("owner {o}: the hash of a removed block resolves"));
                return None;
            }
        }
        // separate from the others
        for (x, d) in &self.m.dv.clone() {
            if *x != o {
                for b in &d.blocks {
                    if !v.iter().any(|y| y.hash == b.hash) && !matches!(attempt(|| c.find_raw_by_hash(&b.hash)), Out::Ok(None)) {
                        self.die(&["C04"], "deriv-not-separate", format!("owner {o} resolves a block of owner {x}"));
                        return None;
                    }
                }
            }
        }
        for b in self.m.main.iter().rev().take(3) {
            if !matches!(attempt(|| c.find_raw_by_hash(&b.hash)), Out::Ok(None)) {
                violate(&["C04"], "deriv-not-separate", format!("owner {o} resolves a main chain block"));
                self.fatal = true;
                return None;
            }
        }
        Some(v)
    }

    fn open_deriv(&mut self, o: u8) -> Option<()> {
        if self.dch.contains_key(&o) {
            return Some(());
        }
        self.known.insert(o);
        let f0 = Self::fault_total();
        let unread = || os::sim().fault_counts.get("failed_reads_of_a_log").copied().unwrap_or(0);
        let before = unread();
        for k in 0..5 {
            let n = self.node.as_mut().unwrap();
            let r = attempt(|| n.get_derivative_chain(&addr(o)));
            self.log_unread |= unread() > before;
            let fired = Self::fault_total() > f0;
            if fired && k == 0 {
                hist(|| format!("open derivative {o} on a failing disk: {}", r.tag()));
            }
            match r {
                Out::Ok(c) => {
                    self.dch.insert(o, c);
                    return Some(());
                }
                r if fired && r.is_panic() => {
                    self.die(&["C18"], "panic-on-disk-error", format!("opening the derivative chain of {o}: {}", r.why()));
                    return None;
                }
                // the fault clears and the call is made again; the lock of a database that failed
                // is held until its threads are gone
                _ if fired && k < 4 && !self.crashed() => {
                    probe("deriv_open_failed_by_fault");
                    self.faults_off();
                    os::sleep_ns(1_000_000_000);
                    os::progress();
                }
                r => {
                    if !self.crashed() {
                        let t: &[&str] = if fired { &["C18", "C04"] } else { &["C04"] };
                        self.die(t, "deriv-open", format!("opening the derivative chain of {o}: {}", r.why()));
                    }
                    return None;
                }
            }
        }
        None
    }

    // ------------------------------------------------------------ after a restart: what survived?
    fn adopt(&mut self, why: Why) {
        self.adopting = true;
        self.adopt_state(why);
        self.adopting = false;
    }
    fn adopt_state(&mut self, why: Why) {
        let Some(v) = self.read_main() else { return };
        let crash = why != Why::Graceful;
        // first start ever, or nothing was durable and genesis was created anew
        if self.m.main.is_empty() {
            if v.len() != 1 {
                self.die(&["C17", "C03"], "first-start-state", format!("a new node has height {}", v.len()));
                return;
            }
            self.m.main = v.clone();
        }
        let n = v.len();
        let len = self.m.main.len();
        if n < self.m.wm {
            let mut t = vec!["C01"];
            if why == Why::Fault {
                t.push("C18");
            }
            self.die(&t, "flushed-blocks-lost", format!("{} blocks had been flushed, height is {n} after {why:?}", self.m.wm));
            return;
        }
        if n > len {
            self.die(&["C03", "C01"], "unknown-blocks", format!("height {n} after {why:?}, only {len} blocks were ever accepted"));
            return;
        }
        for i in 0..n {
            if v[i].dump != self.m.main[i].dump {
                let mut t = vec!["C03"];
                if i < self.m.wm {
                    t.push("C01");
                }
                self.die(&t, "block-changed", format!("block {i} differs after {why:?}"));
                return;
            }
        }
        if n < len {
            probe("blocks_lost_by_crash");
            let gone = self.m.main.split_off(n);
            self.m.lost.extend(gone);
            if matches!(self.m.snap, Some((_, _, h)) if h >= n as u64) {
                self.m.snap = None;
            }
        }
        // stored transactions
        let mc = self.mc();
        for (_, h, dump) in self.m.txs.clone() {
            let was = self.m.present.contains(&h);
            let got = match attempt(|| mc.get_transaction_raw(&h)) {
                Out::Ok(g) => g,
                r => {
                    self.die(&["C01", "C02"], "tx-unreadable", r.why());
                    return;
                }
            };
            match got {
                Some(g) if g == dump => {
                    if !was {
                        self.die(&["C08", "C19"], "tx-appeared", format!("transaction {} was never accepted but is stored after {why:?}", hex8(&h)));
                        return;
                    }
                }
                Some(_) => {
                    self.die(&["C01"], "tx-changed", format!("stored transaction {} differs after {why:?}", hex8(&h)));
                    return;
                }
                None => {
                    if self.m.flushed_tx.contains(&h) {
                        let mut t = vec!["C01", "C09"];
                        if why == Why::Fault {
                            t.push("C18");
                        }
                        self.die(&t, "flushed-tx-lost", format!("flushed transaction {} is gone after {why:?}", hex8(&h)));
                        return;
                    }
                    if was && crash {
                        probe("tx_lost_by_crash");
                        self.m.present.remove(&h);
                    } else if was {
                        // a graceful close without a flush promises nothing about records
                        self.m.present.remove(&h);
                    }
                }
            }
        }
        // ledgers
        let mut idx = [vec![], vec![]];
        for gas in [false, true] {
            let Some(obs) = self.balances(gas) else { return };
            let st = if gas { &self.m.gas } else { &self.m.coins };
            let last = st.vers.len() - 1;
            let cand: Vec<usize> = (st.wm..=last).filter(|i| same_balances(&st.vers[*i], &obs)).collect();
            let detail = || {
                format!(
                    "{} ledger after {why:?} is {}; last flushed {}, latest {} ({} versions)",
                    led(gas),
                    show(&obs),
                    show(&st.vers[st.wm]),
                    show(st.cur()),
                    last - st.wm + 1
                )
            };
            let nothing_since = st.wm == last;
            if cand.is_empty() {
                let mut t = vec!["C06"];
                // a balance that no state since the flush ever had is a lost flushed balance
                let bad = (0..naddr()).any(|a| {
                    let o = obs.get(&a).copied().unwrap_or_default();
                    !(st.wm..=last).any(|i| st.vers[i].get(&a).copied().unwrap_or_default() == o)
                });
                if bad {
                    t.push("C01");
                    t.push("C17");
                    if why == Why::Fault {
                        t.push("C18");
                    }
                    if self.m.epochs > 0 {
                        t.push("C10");
                    }
                    if !self.m.subs.is_empty() {
                        t.push("C19");
                    }
                }
                if why == Why::Graceful || nothing_since {
                    t.push("C17");
                }
                if !gas && obs.get(&ROOT) == Some(&*COINS_PER_CYCLE) && st.get(ROOT) != *COINS_PER_CYCLE {
                    t.push("C17");
                }
                let d = detail();
                self.die(&t, "ledger-diverged", d);
                return;
            }
            if why == Why::Graceful && !cand.contains(&last) {
                let d = detail();
                self.die(&["C17", "C06"], "restart-moved-balances", d);
                return;
            }
            idx[gas as usize] = cand;
        }
        // an epoch block never outlives what it settled
        self.m.settled.retain(|(h, _, _)| *h < n as u64);
        for (h, c, g) in &self.m.settled {
            let kept = |gas: bool, v: usize| *idx[gas as usize].last().unwrap() >= v;
            if !kept(false, *c) || !kept(true, *g) {
                let what = if !kept(false, *c) { "coin" } else { "gas" };
                let d = format!("epoch block {h} is there after {why:?}, but the {what} ledger is older than it ({n} blocks)");
                self.die(&["C10"], "epoch-block-without-its-ledgers", d);
                return;
            }
        }
        // submissions: all or nothing (C19)
        let split = |s: &Sub, ci: usize, gi: usize| {
            let mut e = vec![self.m.present.contains(&s.hash)];
            e.extend(s.cv.map(|c| ci >= c));
            e.extend(s.gv.map(|g| gi >= g));
            e.iter().any(|x| *x) && !e.iter().all(|x| *x)
        };
        let states = || idx[0].iter().flat_map(|c| idx[1].iter().map(|g| (*c, *g)));
        let whole = |f: &dyn Fn(&Sub) -> bool| states().any(|(c, g)| !self.m.subs.iter().any(|s| f(s) && split(s, c, g)));
        let ok = whole(&|_| true);
        // not the known finding: there the databases reach the disk in the background
        let own = !whole(&|s| s.own_flush && !s.flushed);
        let worst = states().next().and_then(|(c, g)| {
            let bad = |own: bool| self.m.subs.iter().find(|s| split(s, c, g) && (!own || s.own_flush && !s.flushed));
            let s = bad(own).or(bad(false))?;
            Some((
                s.flushed,
                format!(
                    "transaction {}: record {}, coins moved {}, gas charged {}",
                    hex8(&s.hash),
                    self.m.present.contains(&s.hash),
                    s.cv.map(|i| (c >= i).to_string()).unwrap_or("n/a".into()),
                    s.gv.map(|i| (g >= i).to_string()).unwrap_or("n/a".into())
                ),
            ))
        });
        if !ok {
            if let Some((flushed, d)) = worst {
                if flushed {
                    self.die(&["C19", "C01"], "flushed submission split", d);
                    return;
                } else if why == Why::Graceful {
                    self.die(&["C19"], "submission split by a clean restart", d);
                    return;
                } else if own {
                    self.die(&["C19"], "submission split by its own flush", d);
                    return;
                }
                probe("unflushed_submission_split");
                violate(&["C19"], "known:unflushed submission split across ledgers", d);
            }
        }
        let (ci, gi) = (*idx[0].last().unwrap(), *idx[1].last().unwrap());
        if ci + 1 < self.m.coins.vers.len() {
            probe("coin_updates_lost_by_crash");
        }
        if gi + 1 < self.m.gas.vers.len() {
            probe("gas_updates_lost_by_crash");
        }
        self.m.coins.vers.truncate(ci + 1);
        self.m.gas.vers.truncate(gi + 1);
        // lost submissions are forgotten; kept ones stay subject to later crashes
        let present = self.m.present.clone();
        self.m.subs.retain(|s| {
            s.flushed
                || (present.contains(&s.hash)
                    && s.cv.map(|c| c <= ci).unwrap_or(true)
                    && s.gv.map(|g| g <= gi).unwrap_or(true))
        });
        // derivative chains
        self.opened = true;
        // a chain nobody asked for yet is opened, and anchored, when it is first needed
        for o in self.owners.clone() {
            if !self.known.contains(&o) {
                continue;
            }
            self.adopt_deriv(o, why);
            if self.fatal {
                return;
            }
        }
        hist(|| format!("state after {why:?}: height {n} coins {} gas {}", show(&self.m.coins.vers[ci]), show(&self.m.gas.vers[gi])));
    }

    fn adopt_deriv(&mut self, o: u8, why: Why) {
        if let Some((r, cap)) = self.deriv_rules.clone() {
            self.rules = Some((r, cap));
            self.faults_on();
        }
        let ok = self.open_deriv(o).is_some();
        if self.deriv_rules.is_some() {
            self.faults_off();
        }
        if !ok || self.crashed() {
            return;
        }
        let Some(v) = self.read_deriv(o) else { return };
        let d = self.m.dv.entry(o).or_default().clone();
        let n = v.len();
        if n < d.wm {
            self.die(&["C04"], "flushed-deriv-lost", format!("owner {o}: {} blocks had been flushed, height is {n} after {why:?}", d.wm));
            return;
        }
        if n > d.blocks.len() {
            self.die(&["C04"], "deriv-unknown-blocks", format!("owner {o}: height {n}, only {} accepted", d.blocks.len()));
            return;
        }
        for i in 0..n {
            if v[i].dump != d.blocks[i].dump {
                self.die(&["C04"], "deriv-block-changed", format!("owner {o}: block {i} differs after {why:?}"));
                return;
            }
        }
        let g = *self.dch[&o].genesis_hash;
        if n > 0 {
            if g != v[0].prev && self.m.dv[&o].blocks[0].emitted {
                self.die(&["C04"], "deriv-anchor-changed", format!("owner {o}: anchor {} but block 0 links to {}", hex8(&g), hex8(&v[0].prev)));
                return;
            }
            // what an emitted block depends on must not be lost before it
            if d.blocks[0].emitted && !self.m.main.iter().any(|b| b.hash == v[0].prev) {
                self.die(&["C04"], "deriv-anchor-lost", format!("owner {o}: block 0 links to {}, which is not in the main chain any more after {why:?}", hex8(&v[0].prev)));
                return;
            }
        } else if !self.m.main.iter().any(|b| b.hash == g) {
            self.die(&["C04"], "deriv-anchor-missing", format!("owner {o}: the chain is empty and its anchor {} is not in the main chain", hex8(&g)));
            return;
        }
        if let Some(a) = d.anchored {
            let want = d.blocks.first().filter(|b| n > 0 && b.emitted).map(|b| b.prev).unwrap_or(a);
            if want == a && g != a && self.m.main.iter().any(|b| b.hash == a) {
                self.die(&["C04"], "deriv-anchor-changed", format!("owner {o}: the flushed anchor {} became {} after {why:?}", hex8(&a), hex8(&g)));
                return;
            }
        }
        let dv = self.m.dv.get_mut(&o).unwrap();
        let gone = dv.blocks.split_off(n);
        if !gone.is_empty() {
            probe("deriv_blocks_lost_by_crash");
        }
        dv.lost.extend(gone);
        if n == 0 {
            dv.anchor = Some(g);
            if dv.anchored != Some(g) {
                dv.anchored = None;
            }
        }
    }

    // ------------------------------------------------------------ invariants after every step
    fn light(&mut self, tags: &[&str]) {
        if self.fatal || self.node.is_none() {
            return;
        }
        let h = self.mc().get_height();
        if h != U256::from(self.m.main.len()) {
            let mut t = vec!["C03"];
            t.extend(tags);
            self.die(&t, "height-moved", format!("height is {h}, expected {}", self.m.main.len()));
            return;
        }
        for gas in [false, true] {
            let Some(obs) = self.balances(gas) else { return };
            let st = if gas { &self.m.gas } else { &self.m.coins };
            if !same_balances(st.cur(), &obs) {
                let mut t = vec!["C06"];
                t.extend(tags);
                let d = format!("{} ledger is {}, expected {}", led(gas), show(&obs), show(st.cur()));
                self.die(&t, "ledger-wrong", d);
                return;
            }
        }
    }
    fn full(&mut self) {
        if self.fatal {
            return;
        }
        let Some(v) = self.read_main() else { return };
        if v.len() != self.m.main.len() {
            self.die(&["C03"], "height-moved", format!("height {} expected {}", v.len(), self.m.main.len()));
            return;
        }
        for i in 0..v.len() {
            if v[i].dump != self.m.main[i].dump {
                self.die(&["C03"], "block-changed", format!("block {i} changed while running"));
                return;
            }
            if i > 0 && self.m.main[i].emitted && v[i].prev != v[i - 1].hash {
                self.die(&["C03"], "broken-link", format!("block {i} does not name block {}", i - 1));
                return;
            }
        }
        let mc = self.mc();
        for (_, h, dump) in self.m.txs.clone() {
            let want = self.m.present.contains(&h);
            let ex = attempt(|| mc.transaction_exists(&h)).ok();
            let raw = attempt(|| mc.get_transaction_raw(&h)).ok().flatten();
            if ex != Some(want) || raw.is_some() != want {
                self.die(&["C08", "C09"], "tx-record", format!("transaction {} stored: {ex:?}, expected {want}", hex8(&h)));
                return;
            }
            if want {
                let parsed = attempt(|| mc.get_transaction(&h)).ok().flatten().and_then(|t| t.dump().ok());
                if raw.as_deref() != Some(&dump[..]) || parsed.as_deref() != Some(&dump[..]) {
                    self.die(&["C01", "C08", "C13"], "tx-content", format!("transaction {} reads back differently", hex8(&h)));
                    return;
                }
            }
        }
        for o in self.owners.clone() {
            if self.dch.contains_key(&o) {
                let Some(v) = self.read_deriv(o) else { return };
                let d = &self.m.dv[&o];
                if v.len() != d.blocks.len() || v.iter().zip(&d.blocks).any(|(a, b)| a.dump != b.dump) {
                    self.die(&["C04"], "deriv-changed", format!("owner {o}: chain differs from what was accepted"));
                    return;
                }
            }
        }
        self.light(&[]);
    }

    // ------------------------------------------------------------ steps
    fn step(&mut self, op: &Op) {
        ctx().ops_done += 1;
        match op {
            Op::Crash(_) | Op::Fault { .. } => {
                self.arm(op);
                hist(|| format!("arm {op:?}"));
                if matches!(op, Op::Crash(c) if c.after.is_none() && c.span == 0) {
                    self.tick_pending();
                }
                return;
            }
            _ => {}
        }
        self.faults_on();
        match op {
            Op::Emit { founder, dt, ntx, pow, mismatch } => self.emit(*founder, *dt, *ntx, *pow, *mismatch, None),
            Op::Abandon { what, polls, hold } => self.abandoned(what, *polls, *hold),
            Op::AddBlock { fit, ntx, salt } => self.add_block(*fit, *ntx, *salt, false),
            Op::Prefill { n, salt } => {
                for k in 0..*n as u32 {
                    if self.fatal || violated() || self.crashed() {
                        break;
                    }
                    self.add_block(Fit::Next, 0, salt.wrapping_add(k), true);
                }
                probe("long_chain");
            }
            Op::ClockWalk { n, seed } => self.clock_walk(*n, *seed),
            Op::Bulk { n, seed } => {
                let mut g = os::rng::Rng::new(*seed, 8);
                for k in 0..(*n).min(200) {
                    if self.fatal || violated() || self.crashed() {
                        break;
                    }
                    let a = NADDR as u8 + k;
                    let x = U256::from(g.range(1, u64::MAX - 1) >> g.below(60)).max(U256::one());
                    let gas = g.pct(30);
                    self.ledger(false, &format!("add {a} {x}"), |b| credit(b, a, x), |n| n.add_amount(&addr(a), x));
                    if gas && !self.fatal && self.node.is_some() {
                        self.ledger(true, &format!("add {a} {x}"), |b| credit(b, a, x), |n| n.add_gas(&addr(a), x));
                    }
                }
                probe("many_accounts");
            }
            Op::Add { gas, a, v } => {
                let x = self.amt(v, *gas, *a, *a);
                self.ledger(*gas, &format!("add {a} {x}"), |b| credit(b, *a, x), |n| {
                    if *gas { n.add_gas(&addr(*a), x) } else { n.add_amount(&addr(*a), x) }
                })
            }
            Op::Sub { gas, a, v } => {
                let x = self.amt(v, *gas, *a, *a);
                self.ledger(*gas, &format!("sub {a} {x}"), |b| debit(b, *a, x), |n| {
                    if *gas { n.sub_gas(&addr(*a), x) } else { n.sub_amount(&addr(*a), x) }
                })
            }
            Op::Set { a, v } => {
                let x = self.amt(v, false, *a, *a);
                self.ledger(false, &format!("set {a} {x}"), |b| { b.insert(*a, x); true }, |n| n.set_amount(&addr(*a), x))
            }
            Op::Send { gas, from, to, v } => {
                let x = self.amt(v, *gas, *from, *to);
                self.ledger(*gas, &format!("send {from}->{to} {x}"), |b| transfer(b, *from, *to, x), |n| {
                    if *gas { n.send_gas(&addr(*from), &addr(*to), x) } else { n.send_amount(&addr(*from), &addr(*to), x) }
                })
            }
            Op::Balance { gas, a } => {
                let _ = (gas, a);
            }
            Op::Tx { from, to, v, salt, data } => {
                let x = self.amt(v, false, *from, *to);
                let t = make_tx(*from, *to, x, *salt, *data);
                self.submit(t);
            }
            Op::ReTx { idx } => {
                if !self.m.txs.is_empty() {
                    let i = *idx as usize % self.m.txs.len();
                    let t = self.m.txs[i].0.clone();
                    self.submit(t);
                }
            }
            Op::DEmit { owner, dt, pow } => self.demit(*owner, *dt, *pow),
            Op::DAdd { owner, fit, salt } => self.dadd(*owner, *fit, *salt),
            Op::DFlush { owner } => self.dflush(*owner),
            Op::DPrefill { owner, n, salt } => self.dprefill(*owner, *n, *salt),
            Op::Flush => self.flush(false),
            Op::FlushMain => self.flush(true),
            Op::Sleep { ms } => {
                os::sleep_ns(*ms as u64 * 1_000_000);
                os::progress();
            }
            Op::Restart => self.restart(),
            Op::Probe => self.probe(),
            _ => {}
        }
        self.faults_off();
        self.tick_pending();
        if !self.fatal && !violated() {
            let every = !matches!(op, Op::Sleep { .. });
            if every {
                self.light(tags_of(op));
            }
        }
    }

    fn amt(&self, v: &Amt, gas: bool, from: u8, to: u8) -> U256 {
        let st = if gas { &self.m.gas } else { &self.m.coins };
        resolve(v, st.get(from), st.get(to))
    }

    /// the disk failed under this node: what it does in memory is in doubt until it is reopened
    fn fired(&self) -> bool {
        Self::fault_total() > self.errs
    }

    fn ledger(
        &mut self,
        gas: bool,
        name: &str,
        model: impl Fn(&mut Bal) -> bool,
        call: impl Fn(&BlockChainTree) -> Result<(), error_stack::Report<blockchaintree::errors::BlockChainTreeError>>,
    ) {
        let st = if gas { &mut self.m.gas } else { &mut self.m.coins };
        let mut next = st.cur().clone();
        let legal = model(&mut next);
        let n = self.node.as_ref().unwrap();
        let r = attempt(|| call(n));
        hist(|| format!("{} {name}: {}", led(gas), r.tag()));
        let fired = self.fired();
        let st = if gas { &mut self.m.gas } else { &mut self.m.coins };
        match &r {
            Out::Ok(()) => {
                if legal {
                    st.push(next);
                } else {
                    self.die(&["C07", "C06"], "overdraft-accepted", format!("{} {name} succeeded on {}", led(gas), show(st_cur(&self.m, gas))));
                }
            }
            _ if fired => {
                // the disk failed inside: the effect is in doubt until the node is reopened
                if legal {
                    st.push(next);
                }
                probe("ledger_call_failed_by_fault");
                self.reopen_after_fault("ledger update");
            }
            Out::Err(_) if !legal => {
                probe("refused_ledger_call");
            }
            o => {
                let d = format!("{} {name} on {}: {}", led(gas), show(st_cur(&self.m, gas)), o.why());
                let c = if o.is_panic() { "ledger-panic" } else { "ledger-refused" };
                self.die(&["C07"], c, d);
            }
        }
    }

    // ------------------------------------------------------------ blocks
    /// a call whose caller gives up waiting for it
    fn abandoned(&mut self, what: &Op, polls: u8, hold: u8) {
        let rt = self.rt.as_ref().unwrap();
        let main_only = matches!(what, Op::FlushMain);
        let r = match what {
            Op::Emit { founder, dt, ntx, pow, mismatch } => {
                self.emit(*founder, *dt, *ntx, *pow, *mismatch, Some((polls, hold)));
                return;
            }
            Op::Flush | Op::FlushMain => {
                let n = self.node.as_ref().unwrap();
                attempt_opt(|| if main_only { rt.block_on(abandon(n.get_main_chain().flush(), polls, hold)) } else { rt.block_on(abandon(n.flush(), polls, hold)) })
            }
            Op::DFlush { owner } if self.dch.contains_key(owner) => attempt_opt(|| rt.block_on(abandon(self.dch[owner].flush(), polls, hold))),
            _ => return,
        };
        hist(|| format!("{what:?}, given up at {polls}: {}", r.as_ref().map_or("abandoned", |r| r.tag())));
        // what an abandoned flush made durable is anybody's guess
        if let Some(o) = r {
            if !o.is_ok() && !self.fired() && !self.crashed() {
                self.die(&["C01", "C18"], "flush-failed", format!("flush without any fault: {}", o.why()));
            }
        }
        os::progress();
    }
    /// a closing emission was dropped half-way: the block is missing, and only the treasury may
    /// have changed; asking again closes the epoch
    #[allow(clippy::too_many_arguments)]
    fn emission_abandoned(&mut self, founder: u8, ts: u64, txs: &[H], p: &H, h: u64, tip: &Blk, again: bool) {
        probe("rollover_abandoned");
        if self.crashed() {
            return;
        }
        let pre_c = self.m.coins.cur().clone();
        let pre_g = self.m.gas.cur().clone();
        let mut filled = pre_c.clone();
        filled.insert(ROOT, *COINS_PER_CYCLE);
        self.m.snap = None;
        let node = self.node.as_ref().unwrap();
        match attempt(|| node.get_amount(&addr(ROOT))) {
            Out::Ok(v) if v == pre_c.get(&ROOT).copied().unwrap_or_default() => {}
            Out::Ok(v) if v == *COINS_PER_CYCLE => {
                probe("rollover_abandoned_after_the_refill");
                self.m.coins.push(filled);
            }
            o => {
                self.die(&["C10"], "abandoned-rollover-moved-coins", format!("an abandoned closing emission at height {h} left the treasury at {}", match o { Out::Ok(v) => v.to_string(), o => o.why() }));
                return;
            }
        }
        if again {
            self.emit_retry(founder, ts, txs, p, true, h, tip, pre_c, pre_g);
        }
    }
    fn emit(&mut self, founder: u8, dt: i64, ntx: u8, pow: Pow, mismatch: bool, quit: Option<(u8, u8)>) {
        let h = self.m.main.len() as u64;
        let tip = self.m.main.last().unwrap().clone();
        let epoch = h % self.bpe == 0;
        let empty = epoch != mismatch;
        let txs: Vec<H> = if empty { vec![] } else { tx_list(&self.m.txs, ntx.max(1), h, dt) };
        let root = merkle(&txs);
        let ts = shift(tip.ts, dt);
        let need = lz(&tip.diff);
        let prev2 = if self.m.main.len() > 1 { self.m.main[self.m.main.len() - 2].hash } else { [9; 32] };
        let Some(p) = mine(&tip.hash, &root, need, pow, h ^ (dt as u64) << 8, &prev2) else {
            probe("mining_budget_exceeded");
            return;
        };
        let good = pow_ok(&tip.hash, &tip.diff, &root, &p);
        let legal = good && empty == epoch;
        let (rt, node) = (self.rt.as_ref().unwrap(), self.node.as_mut().unwrap());
        let r = match quit {
            Some((polls, hold)) if legal && epoch => {
                let r = attempt_opt(|| rt.block_on(abandon(node.emmit_new_main_block(&p, &addr(founder), &txs, ts), polls, hold)));
                match r {
                    Some(r) => r,
                    None => {
                        hist(|| format!("emit h={h} EPOCH: abandoned after {polls}"));
                        os::progress();
                        if self.fired() {
                            self.faults_off();
                            self.reopen_after_fault("abandoned emission");
                            return;
                        }
                        match self.mc().get_height() {
                            x if x == U256::from(h) => {
                                self.emission_abandoned(founder, ts, &txs, &p, h, &tip, hold % 2 == 0);
                                return;
                            }
                            // it took effect after all
                            _ => match attempt(|| self.mc().get_last_block()) {
                                Out::Ok(Some(b)) => Out::Ok(b),
                                _ => return self.die(&["C10", "C03"], "last-block", "no last block".into()),
                            },
                        }
                    }
                }
            }
            _ => attempt(|| rt.block_on(node.emmit_new_main_block(&p, &addr(founder), &txs, ts))),
        };
        hist(|| format!("emit h={h} dt={dt} ntx={} {pow:?}{}: {}", txs.len(), if epoch { " EPOCH" } else { "" }, r.tag()));
        let fired = self.fired();
        let pre_c = self.m.coins.cur().clone();
        let pre_g = self.m.gas.cur().clone();
        match &r {
            Out::Ok(b) => {
                if !good {
                    self.die(&["C11"], "no-proof-accepted", format!("emission at height {h} accepted a proof with too few zeros ({pow:?}, needs {need})"));
                    return;
                }
                if !legal {
                    self.die(&["C11", "C10"], "wrong-list-accepted", format!("height {h}: {} transactions accepted", txs.len()));
                    return;
                }
                if epoch {
                    probe("rollover");
                    self.m.epochs += 1;
                    let mut c = pre_c.clone();
                    c.insert(ROOT, *COINS_PER_CYCLE);
                    self.m.coins.push(c);
                    self.m.settled.push((h, self.m.coins.vers.len() - 1, self.m.gas.vers.len() - 1));
                    self.m.snap = Some((pre_c.clone(), pre_g.clone(), h));
                } else {
                    probe("block_emitted");
                }
                self.check_emitted(b, h, &tip, ts, &p, founder, &txs, epoch, &pre_c, &pre_g);
                self.m.main.push(blk_of(&**b, true));
                if need >= 8 {
                    probe("hard_block");
                }
                if self.fatal {
                    return;
                }
            }
            o if !fired => {
                if o.is_panic() {
                    let t: &[&str] = if epoch { &["C11", "C10"] } else { &["C11"] };
                    self.die(t, "emission-panic", format!("emission at height {h} dt {dt}: {}", o.why()));
                    return;
                }
                if legal {
                    let mut t = vec!["C11", "C02"];
                    if epoch {
                        t.push("C10");
                    }
                    self.die(&t, "emission-refused", format!("a block with a valid proof was refused at height {h}: {}", o.why()));
                    return;
                }
                probe("emission_refused");
            }
            o => {
                probe(if epoch { "rollover_failed_by_fault" } else { "emission_failed_by_fault" });
                if o.is_panic() {
                    let t: &[&str] = if epoch { &["C10", "C11"] } else { &["C11"] };
                    self.die(t, "emission-panic-on-disk-error", format!("emission at height {h}: {}", o.why()));
                    return;
                }
                self.faults_off();
                if self.crashed() {
                    return; // handled by the caller
                }
                let now = self.mc().get_height();
                if now != U256::from(h) {
                    self.die(&["C10", "C03"], "failed-emission-took-effect", format!("emission at height {h} failed, height is {now}"));
                    return;
                }
                if legal {
                    // retry on the same node, then after reopening; either must complete it
                    self.emit_retry(founder, ts, &txs, &p, epoch, h, &tip, pre_c, pre_g);
                } else {
                    self.reopen_after_fault("refused emission");
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn emit_retry(&mut self, founder: u8, ts: u64, txs: &[H], p: &H, epoch: bool, h: u64, tip: &Blk, pre_c: Bal, pre_g: Bal) {
        let (rt, node) = (self.rt.as_ref().unwrap(), self.node.as_mut().unwrap());
        let r = attempt(|| rt.block_on(node.emmit_new_main_block(p, &addr(founder), txs, ts)));
        hist(|| format!("retry on the same node: {}", r.tag()));
        // whatever happens now, the treasury may have been refilled already
        let refill = |c: &Bal| {
            let mut c = c.clone();
            c.insert(ROOT, *COINS_PER_CYCLE);
            c
        };
        match r {
            Out::Ok(b) => {
                probe("retry_ok_same_node");
                if epoch {
                    self.m.epochs += 1;
                    self.m.coins.push(refill(&pre_c));
                    self.m.snap = None;
                    self.check_emitted_epoch_retry(&b, h, tip, &pre_c, &pre_g);
                }
                self.m.main.push(blk_of(&*b, true));
                return;
            }
            Out::Panic(e) => {
                self.die(&["C10", "C11", "C18"], "emission-panic-after-fault", format!("retry at height {h} after the fault cleared: {e}"));
                return;
            }
            Out::Err(e) if ctx().abandoned && !self.fired() && !self.crashed() => {
                self.die(&["C10", "C11"], "emission-refused", format!("closing the epoch at height {h} after an abandoned attempt: {e}"));
                return;
            }
            Out::Err(_) => {}
        }
        if epoch {
            self.m.coins.push(refill(&pre_c));
        }
        // the failed block itself may have reached the disk
        let maybe = expected_block(h, tip, ts, p, founder, txs, epoch, &[summary_root(&pre_c, &pre_g), summary_root(&refill(&pre_c), &pre_g)]);
        self.reopen_after_fault_maybe("emission", maybe);
        if self.fatal || self.crashed() || self.m.main.len() as u64 != h || self.m.main.last().unwrap().hash != tip.hash {
            return; // older blocks or the block itself: nothing left to retry
        }
        let pre_c = self.m.coins.cur().clone();
        let pre_g = self.m.gas.cur().clone();
        let (rt, node) = (self.rt.as_ref().unwrap(), self.node.as_mut().unwrap());
        let r = attempt(|| rt.block_on(node.emmit_new_main_block(p, &addr(founder), txs, ts)));
        hist(|| format!("retry after reopening: {}", r.tag()));
        match r {
            Out::Ok(b) => {
                probe("retry_ok_after_reopen");
                if epoch {
                    self.m.epochs += 1;
                    self.m.coins.push(refill(&pre_c));
                    self.m.settled.push((h, self.m.coins.vers.len() - 1, self.m.gas.vers.len() - 1));
                    self.m.snap = Some((pre_c.clone(), pre_g.clone(), h));
                }
                self.check_emitted(&b, h, tip, ts, p, founder, txs, epoch, &pre_c, &pre_g);
                self.m.main.push(blk_of(&*b, true));
            }
            o => {
                let t: &[&str] = if epoch { &["C10", "C18", "C02"] } else { &["C18", "C02"] };
                self.die(t, "retry-after-reopen", format!("emission at height {h} after the fault cleared and a reopen: {}", o.why()));
            }
        }
    }
    fn check_emitted_epoch_retry(&mut self, b: &BlockArc, h: u64, tip: &Blk, pre_c: &Bal, pre_g: &Bal) {
        let i = b.get_info();
        if i.height != U256::from(h) || i.previous_hash != tip.hash {
            self.die(&["C10", "C03"], "retry-block", format!("retried epoch block at height {h} is wrong"));
            return;
        }
        let mut c2 = pre_c.clone();
        c2.insert(ROOT, *COINS_PER_CYCLE);
        let ok: Vec<H> = [pre_c, &c2].iter().flat_map(|c| summary_roots(c, pre_g)).collect();
        if !ok.contains(&b.get_merkle_root()) {
            self.die(&["C10"], "summary-root", format!("retried epoch block at height {h}: root does not commit to the ledgers"));
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn check_emitted(&mut self, b: &BlockArc, h: u64, tip: &Blk, ts: u64, p: &H, founder: u8, txs: &[H], epoch: bool, pre_c: &Bal, pre_g: &Bal) {
        let i = b.get_info();
        if i.height != U256::from(h) {
            self.die(&["C03"], "wrong-height-recorded", format!("emitted block says height {} at {h}", i.height));
            return;
        }
        if i.previous_hash != tip.hash {
            self.die(&["C03", "C12"], "broken-link", format!("emitted block {h} does not name its predecessor"));
            return;
        }
        let want = retarget(tip.ts, ts, &tip.diff);
        if i.difficulty != want {
            self.die(&["C11"], "retarget", format!("block {h}, {} s after its predecessor: difficulty {} -> {}, expected {}", ts as i128 - tip.ts as i128, hex8(&tip.diff), hex8(&i.difficulty), hex8(&want)));
            return;
        }
        if i.timestamp != ts || i.pow != *p || i.founder != addr(founder) {
            self.die(&["C03", "C12"], "emitted-header", format!("block {h}: timestamp, proof or founder not as given"));
            return;
        }
        if b.transactions().unwrap_or(&[]) != txs {
            self.die(&["C03", "C12"], "emitted-transactions", format!("block {h}: transaction list not as given"));
            return;
        }
        if epoch {
            if !summary_roots(pre_c, pre_g).contains(&b.get_merkle_root()) {
                self.die(&["C10"], "summary-root", format!("epoch block {h}: its root does not commit to coins {} gas {}", show(pre_c), show(pre_g)));
            }
        } else if b.get_merkle_root() != merkle(txs) {
            self.die(&["C12", "C03"], "merkle-root", format!("block {h}: its root does not commit to its transactions"));
        }
    }

    /// difficulty and fee of a long chain under a clock that stalls, jumps and runs backwards
    fn clock_walk(&mut self, n: u16, seed: u64) {
        let mut g = os::rng::Rng::new(seed, 9);
        let tip = self.m.main.last().unwrap();
        let (mut ts, mut d) = (tip.ts, tip.diff);
        let mut early = 50;
        for k in 0..n {
            if k % 64 == 0 {
                early = *g.pick(&[5, 30, 50, 70, 95]);
            }
            // no chain gets nearer to the end of the scale
            let hard = lz(&d) < 250 && g.pct(early);
            let next = match g.below(12) {
                0 => ts.saturating_add(600),
                1 if hard => 0,
                2 if !hard => u64::MAX,
                _ if hard => match g.below(6) {
                    0 => ts,
                    1 => ts.saturating_sub(g.below(100_000)),
                    2 => ts.saturating_add(599),
                    _ => ts.saturating_add(g.below(600)),
                },
                _ => match g.below(6) {
                    0 => ts.saturating_add(601),
                    1 => ts.saturating_add(g.below(1 << 40)),
                    _ => ts.saturating_add(601 + g.below(1000)),
                },
            };
            if next < ts.saturating_add(600) && lz(&d) >= 250 {
                ts = g.below(1 << 40);
                continue;
            }
            let mut got = d;
            let r = attempt(|| {
                tools::recalculate_difficulty(ts, next, &mut got);
                Ok::<U256, String>(tools::recalculate_fee(&got))
            });
            let want = retarget(ts, next, &d);
            match r {
                Out::Ok(fee) if got == want && fee == *FEE_STEP * U256::from(lz(&want)) => {}
                Out::Ok(fee) => {
                    self.die(&["C11"], "retarget", format!("step {k} of a clock walk, from {ts} to {next}: difficulty {} -> {}, expected {}; fee {fee}", hex8(&d), hex::encode(got), hex::encode(want)));
                    return;
                }
                o => {
                    self.die(&["C11"], "emission-panic", format!("step {k} of a clock walk, from {ts} to {next}, difficulty {}: {}", hex8(&d), o.why()));
                    return;
                }
            }
            d = want;
            ts = if next == u64::MAX || g.pct(2) { g.below(1 << 40) } else { next };
        }
        probe("clock_walk");
        hist(|| format!("clock walk of {n} blocks: difficulty {}", hex8(&d)));
    }
    fn add_block(&mut self, fit: Fit, ntx: u8, salt: u32, bulk: bool) {
        let h = self.m.main.len() as u64;
        let at = match fit {
            Fit::Next => h,
            Fit::Past => h - 1 - (salt as u64 / 3) % h,
            Fit::Tip => h - 1,
            Fit::Future => h + 1,
            Fit::FarFuture => h + 1000 + salt as u64 % 7,
        };
        if matches!(fit, Fit::Past | Fit::Tip) && salt % 3 != 0 {
            return self.add_again(at);
        }
        let height = U256::from(at) + if fit == Fit::FarFuture { far(salt) } else { U256::zero() };
        let at = if height > U256::from(u64::MAX) { u64::MAX } else { height.as_u64() };
        let epoch = h % self.bpe == 0;
        if fit == Fit::Next && epoch && !bulk {
            return; // a foreign epoch block would skip the rollover; clusters cover replicas
        }
        let tip = self.m.main.last().unwrap().clone();
        let list: Vec<Transaction> =
            (0..many(ntx)).map(|k| make_tx(4, 5, U256::from(salt), salt.wrapping_mul(31).wrapping_add(k as u32), (k % 200) as u8)).collect();
        let mut txs: Vec<H> = list.iter().map(|t| sha(&[&t.dump().unwrap()])).collect();
        if txs.is_empty() {
            txs.push(sha(&[&salt.to_be_bytes()]));
        }
        let root = merkle(&txs);
        let ts = tip.ts.saturating_add(600);
        let p = mine(&tip.hash, &root, lz(&tip.diff), Pow::Good, salt as u64, &[9; 32]).unwrap_or([0; 32]);
        let info = block::BasicInfo::new(ts, p, tip.hash, height, retarget(tip.ts, ts, &tip.diff), addr(3));
        let fee = *FEE_STEP * U256::from(lz(&info.difficulty));
        let b: BlockArc = Arc::new(block::TransactionBlock::new(fee, info, root, txs));
        let blk = blk_of(&*b, true);
        let n = self.node.as_ref().unwrap();
        let r = attempt(|| n.add_new_block(b.clone(), &list));
        hist(|| format!("add_new_block {fit:?} at={at} height={h} ntx={ntx}: {}", r.tag()));
        let fired = self.fired();
        match &r {
            Out::Ok(()) => {
                if at != h {
                    self.die(&["C03"], "misfit-accepted", format!("a block for height {at} was accepted at height {h}"));
                    return;
                }
                probe("foreign_block_added");
                self.m.main.push(blk);
                for t in list {
                    self.remember(&t, true);
                }
            }
            _ if fired => {
                probe("add_block_failed_by_fault");
                for t in &list {
                    self.remember(t, false);
                }
                if at == h {
                    let maybe_tx: Vec<H> = list.iter().map(|t| sha(&[&t.dump().unwrap()])).collect();
                    for x in &maybe_tx {
                        self.m.present.insert(*x);
                    }
                    self.reopen_after_fault_maybe("add_new_block", vec![blk]);
                } else {
                    self.reopen_after_fault("add_new_block");
                }
            }
            o => {
                if at == h || o.is_panic() {
                    self.die(&["C03"], "fitting-block-refused", format!("a block for height {at} at height {h}: {}", o.why()));
                    return;
                }
                probe("misfit_block_refused");
                for t in &list {
                    self.remember(t, false);
                }
            }
        }
    }
    /// a block that is in the chain already arrives once more
    fn add_again(&mut self, at: u64) {
        let have = self.m.main[at as usize].clone();
        let Ok(b) = block::deserialize_main_chain_block(&have.dump) else { return };
        let n = self.node.as_ref().unwrap();
        let mc = self.mc();
        let r = attempt(|| n.add_new_block(b.clone(), &[]));
        let h = self.m.main.len();
        hist(|| format!("add_new_block again at={at} height={h}: {}", r.tag()));
        match &r {
            Out::Err(_) => probe("known_block_refused"),
            _ if self.fired() => {}
            o => {
                self.die(&["C03"], "misfit-accepted", format!("block {at} was submitted again at height {h}: {}", o.tag()));
                return;
            }
        }
        if self.fired() {
            return self.reopen_after_fault("add_new_block");
        }
        match attempt(|| mc.find_raw_by_hash(&have.hash)) {
            Out::Ok(Some(d)) if d == have.dump => {}
            _ => self.die(&["C03"], "hash-lookup", format!("block {at} is not found by its hash after it was refused a second time")),
        }
    }
    fn remember(&mut self, t: &Transaction, present: bool) {
        let d = t.dump().unwrap();
        let h = sha(&[&d]);
        if !self.m.txs.iter().any(|x| x.1 == h) {
            self.m.txs.push((t.clone(), h, d));
        }
        if present {
            self.m.present.insert(h);
        }
    }

    // ------------------------------------------------------------ transactions
    fn submit(&mut self, t: Transaction) {
        let dump = t.dump().unwrap();
        let hash = sha(&[&dump]);
        let from = (0..naddr()).find(|a| addr(*a) == *t.get_sender()).unwrap();
        let to = (0..naddr()).find(|a| addr(*a) == *t.get_receiver()).unwrap();
        let x = *t.get_amount();
        let price = *BYTE_GAS_PRICE * U256::from(dump.len());
        let dup = self.m.present.contains(&hash);
        let coins = self.m.coins.get(from);
        let gas = self.m.gas.get(from);
        let tip = self.m.main.last().unwrap();
        let fee = *FEE_STEP * U256::from(lz(&tip.diff));
        let room = from == to || self.m.coins.get(to).checked_add(x).is_some();
        let can = coins >= x && gas >= price && room && !dup;
        let must = can && coins.checked_sub(x).map(|r| r >= fee).unwrap_or(false);
        self.remember(&t, false);
        let n = self.node.as_ref().unwrap();
        let f0 = os::sim().asked_flushes;
        let r = attempt(|| n.send_transaction(&t));
        let own_flush = os::sim().asked_flushes > f0;
        hist(|| format!("submit {} {from}->{to} {x} ({} bytes){}: {}", hex8(&hash), dump.len(), if dup { " again" } else { "" }, r.tag()));
        let fired = self.fired();
        let mut apply = |m: &mut Model| {
            let mut c = m.coins.cur().clone();
            let cv = if from != to && !x.is_zero() {
                transfer(&mut c, from, to, x);
                Some(m.coins.push(c))
            } else {
                None
            };
            let mut g = m.gas.cur().clone();
            debit(&mut g, from, price);
            let gv = Some(m.gas.push(g));
            m.present.insert(hash);
            m.subs.push(Sub { hash, cv, gv, flushed: false, own_flush });
        };
        match &r {
            Out::Ok(()) => {
                if dup {
                    self.die(&["C09"], "applied-twice", format!("transaction {} was accepted again", hex8(&hash)));
                    return;
                }
                if !can {
                    self.die(&["C08"], "unaffordable-accepted", format!("transaction of {x} with coins {coins}, gas {gas} (needs {price}), room {room} accepted"));
                    return;
                }
                probe("tx_accepted");
                apply(&mut self.m);
            }
            _ if fired => {
                if can {
                    apply(&mut self.m);
                    // in doubt: any part may be missing
                    self.m.subs.pop();
                }
                self.reopen_after_fault("submission");
            }
            o if o.is_panic() => {
                self.die(&["C08", "C09"], "submit-panic", format!("submitting {x} with coins {coins}, gas {gas}: {}", o.why()));
            }
            o => {
                if must {
                    let mut t = vec!["C08"];
                    if self.m.txs.len() > 1 {
                        t.push("C09"); // a distinct transaction taken for a duplicate
                    }
                    self.die(&t, "affordable-refused", format!("transaction of {x} with coins {coins}, gas {gas}, fee {fee}: {}", o.why()));
                    return;
                }
                probe(if dup { "duplicate_refused" } else { "tx_refused" });
            }
        }
    }

    // ------------------------------------------------------------ derivative chains
    fn demit(&mut self, o: u8, dt: i64, pow: Pow) {
        if self.open_deriv(o).is_none() {
            return;
        }
        if !self.m.dv.contains_key(&o) || self.m.dv[&o].anchor.is_none() {
            let g = *self.dch[&o].genesis_hash;
            self.m.dv.entry(o).or_default().anchor = Some(g);
        }
        let d = self.m.dv[&o].clone();
        let h = d.blocks.len() as u64;
        let (prev, diff, pts, p2) = match d.blocks.last() {
            Some(b) => (b.hash, b.diff, b.ts, b.prev),
            None => {
                let a = d.anchor.unwrap();
                match self.m.main.iter().find(|b| b.hash == a) {
                    Some(b) => (b.hash, EASIEST, b.ts, b.prev),
                    None => {
                        self.die(&["C04"], "deriv-anchor-missing", format!("owner {o}: anchor {} is not a main chain block", hex8(&a)));
                        return;
                    }
                }
            }
        };
        let root = merkle(&[]);
        let need = lz(&diff);
        let ts = shift(pts, dt);
        let Some(p) = mine(&prev, &root, need, pow, (o as u64) << 32 ^ h, &p2) else { return };
        let good = pow_ok(&prev, &diff, &root, &p);
        let (rt, node) = (self.rt.as_ref().unwrap(), self.node.as_mut().unwrap());
        let r = attempt(|| rt.block_on(node.emmit_new_derivative_block(&p, &addr(o), ts)));
        hist(|| format!("emit derivative {o} h={h} dt={dt} {pow:?}: {}", r.tag()));
        let fired = self.fired();
        match &r {
            Out::Ok(b) => {
                if !good {
                    self.die(&["C11"], "no-proof-accepted", format!("derivative emission at {h} accepted a bad proof ({pow:?})"));
                    return;
                }
                let i = b.get_info();
                if i.height != U256::from(h) || i.previous_hash != prev {
                    self.die(&["C04"], "deriv-broken-link", format!("owner {o}: block {h} has height {} and does not link", i.height));
                    return;
                }
                let want = retarget(pts, ts, &diff);
                if i.difficulty != want {
                    self.die(&["C11"], "retarget", format!("derivative block {h}: difficulty {} -> {}, expected {}", hex8(&diff), hex8(&i.difficulty), hex8(&want)));
                    return;
                }
                if i.timestamp != ts || i.pow != p || i.founder != addr(o) {
                    self.die(&["C04", "C12"], "emitted-header", format!("derivative block {h}: header not as given"));
                    return;
                }
                probe("deriv_emitted");
                let blk = blk_of(&**b, true);
                self.m.dv.get_mut(&o).unwrap().blocks.push(blk);
            }
            _ if fired => {
                probe("deriv_failed_by_fault");
                let info = block::BasicInfo::new(ts, p, prev, U256::from(h), retarget(pts, ts, &diff), addr(o));
                let blk = blk_of(&block::DerivativeBlock { default_info: info }, true);
                if good {
                    self.m.dv.get_mut(&o).unwrap().blocks.push(blk);
                }
                self.reopen_after_fault("derivative emission");
            }
            x if x.is_panic() => {
                self.die(&["C11", "C04"], "emission-panic", format!("derivative emission at {h} dt {dt}: {}", x.why()));
            }
            x => {
                if good {
                    self.die(&["C04", "C11"], "emission-refused", format!("owner {o}: a derivative block with a valid proof was refused at {h}: {}", x.why()));
                    return;
                }
                probe("emission_refused");
            }
        }
    }
    fn dadd(&mut self, o: u8, fit: Fit, salt: u32) {
        if self.open_deriv(o).is_none() {
            return;
        }
        if !self.m.dv.contains_key(&o) || self.m.dv[&o].anchor.is_none() {
            let g = *self.dch[&o].genesis_hash;
            self.m.dv.entry(o).or_default().anchor = Some(g);
        }
        let d = self.m.dv[&o].clone();
        let h = d.blocks.len() as u64;
        let at = match fit {
            Fit::Next => return,
            Fit::Past => h.saturating_sub(2),
            Fit::Tip => h.saturating_sub(1),
            Fit::Future => h + 1,
            Fit::FarFuture => h + 1000 + salt as u64 % 7,
        };
        if at == h {
            return;
        }
        let height = U256::from(at) + if fit == Fit::FarFuture { far(salt) } else { U256::zero() };
        if fit == Fit::Past && salt % 2 == 0 {
            // a block that is in the chain already arrives once more
            let have = d.blocks[at as usize].clone();
            let Ok(b) = block::DerivativeBlock::parse(&have.dump[1..]) else { return };
            let c = self.dch[&o].clone();
            let r = attempt(|| c.add_block(&b));
            hist(|| format!("add derivative {o} again at={at} height={h}: {}", r.tag()));
            if !matches!(r, Out::Err(_)) {
                self.die(&["C04", "C03"], "misfit-accepted", format!("owner {o}: block {at} again at height {h}: {}", r.tag()));
                return;
            }
            match attempt(|| c.find_raw_by_hash(&have.hash)) {
                Out::Ok(Some(d)) if d == have.dump => probe("known_block_refused"),
                _ if self.fired() => {}
                _ => self.die(&["C04", "C03"], "deriv-hash-lookup", format!("owner {o}: block {at} is not found by its hash after it was refused a second time")),
            }
            return;
        }
        let prev = d.blocks.last().map(|b| b.hash).or(d.anchor).unwrap();
        let info = block::BasicInfo::new(1_597_924_800 + salt as u64, [1; 32], prev, height, EASIEST, addr(o));
        let c = self.dch[&o].clone();
        let r = attempt(|| c.add_block(&block::DerivativeBlock { default_info: info }));
        hist(|| format!("add derivative {o} {fit:?} at={at} height={h}: {}", r.tag()));
        match r {
            Out::Err(_) => probe("misfit_block_refused"),
            x => self.die(&["C04", "C03"], "misfit-accepted", format!("owner {o}: a block for {at} at height {h}: {}", x.tag())),
        }
    }
    fn dprefill(&mut self, o: u8, n: u16, salt: u32) {
        if self.open_deriv(o).is_none() {
            return;
        }
        if !self.m.dv.contains_key(&o) || self.m.dv[&o].anchor.is_none() {
            let g = *self.dch[&o].genesis_hash;
            self.m.dv.entry(o).or_default().anchor = Some(g);
        }
        let c = self.dch[&o].clone();
        for k in 0..n as u64 {
            if self.crashed() {
                return;
            }
            let d = self.m.dv.get_mut(&o).unwrap();
            let prev = d.blocks.last().map(|b| b.hash).or(d.anchor).unwrap();
            let h = U256::from(d.blocks.len());
            let info = block::BasicInfo::new(1_597_924_800 + salt as u64 + 600 * k, [1; 32], prev, h, EASIEST, addr(o));
            let b = block::DerivativeBlock { default_info: info };
            match attempt(|| c.add_block(&b)) {
                Out::Ok(()) => d.blocks.push(blk_of(&b, true)),
                x => {
                    if self.fired() {
                        return self.reopen_after_fault("derivative block");
                    }
                    if !self.crashed() {
                        self.die(&["C04"], "deriv-refused", format!("owner {o}: a fitting block at height {h}: {}", x.why()));
                    }
                    return;
                }
            }
        }
        hist(|| format!("filled derivative {o} with {n} blocks"));
        probe("long_derivative_chain");
    }
    fn dflush(&mut self, o: u8) {
        if self.open_deriv(o).is_none() {
            return;
        }
        if !self.m.dv.contains_key(&o) || self.m.dv[&o].anchor.is_none() {
            let g = *self.dch[&o].genesis_hash;
            self.m.dv.entry(o).or_default().anchor = Some(g);
        }
        let rt = self.rt.as_ref().unwrap();
        let c = self.dch[&o].clone();
        let r = attempt(|| rt.block_on(c.flush()));
        hist(|| format!("flush derivative {o}: {}", r.tag()));
        let fired = self.fired();
        match r {
            Out::Ok(()) => {
                if !self.crashed() {
                    let d = self.m.dv.get_mut(&o).unwrap();
                    d.wm = d.blocks.len();
                    d.anchored = d.anchor;
                    probe("deriv_flush_acked");
                }
            }
            x if fired => {
                probe("flush_failed_by_fault");
                if x.is_panic() {
                    self.die(&["C18"], "panic-on-disk-error", format!("derivative flush: {}", x.why()));
                    return;
                }
                self.faults_off();
                if self.crashed() {
                    return;
                }
                let rt = self.rt.as_ref().unwrap();
                let r = attempt(|| rt.block_on(c.flush()));
                drop(c);
                if self.crashed() {
                    return;
                }
                if r.is_ok() {
                    let d = self.m.dv.get_mut(&o).unwrap();
                    d.wm = d.blocks.len();
                    d.anchored = d.anchor;
                    return;
                }
                self.reopen_after_fault("derivative flush");
                if self.fatal || self.crashed() {
                    return;
                }
                let rt = self.rt.as_ref().unwrap();
                let c = self.dch[&o].clone();
                let r = attempt(|| rt.block_on(c.flush()));
                if self.crashed() {
                    return;
                }
                if !r.is_ok() {
                    self.die(&["C18", "C04"], "retry-after-reopen", format!("derivative flush after the fault cleared and a reopen: {}", r.why()));
                    return;
                }
                let d = self.m.dv.get_mut(&o).unwrap();
                d.wm = d.blocks.len();
                d.anchored = d.anchor;
            }
            x => {
                if !self.crashed() {
                    self.die(&["C04", "C18"], "flush-failed", format!("derivative flush without any fault: {}", x.why()));
                }
            }
        }
    }

    // ------------------------------------------------------------ flush, restart
    fn do_flush(&mut self, main_only: bool) -> Out<()> {
        let rt = self.rt.as_ref().unwrap();
        let n = self.node.as_ref().unwrap();
        attempt(|| if main_only { rt.block_on(n.get_main_chain().flush()) } else { rt.block_on(n.flush()) })
    }
    fn flush_acked(&mut self, main_only: bool) {
        if self.crashed() {
            probe("crash_inside_flush");
            return;
        }
        probe("flush_acked");
        self.m.wm = self.m.main.len();
        self.m.flushed_tx = self.m.present.clone();
        if !main_only {
            self.m.coins.flushed();
            self.m.gas.flushed();
            for s in self.m.subs.iter_mut() {
                s.flushed = true;
            }
        }
    }
    fn flush(&mut self, main_only: bool) {
        let r = self.do_flush(main_only);
        hist(|| format!("flush{}: {}", if main_only { " main" } else { "" }, r.tag()));
        let fired = self.fired();
        match r {
            Out::Ok(()) => {
                self.flush_acked(main_only);
                if fired {
                    // success although the disk failed: everything must be durable all the same
                    probe("flush_ok_despite_fault");
                }
            }
            o if fired => {
                probe("flush_failed_by_fault");
                if o.is_panic() {
                    self.die(&["C18"], "panic-on-disk-error", format!("flush: {}", o.why()));
                    return;
                }
                self.faults_off();
                if self.crashed() {
                    return;
                }
                let r = self.do_flush(main_only);
                hist(|| format!("flush again on the same node: {}", r.tag()));
                match r {
                    Out::Ok(()) => {
                        probe("retry_ok_same_node");
                        self.flush_acked(main_only);
                        return;
                    }
                    Out::Panic(e) => {
                        self.die(&["C18"], "panic-on-disk-error", format!("flush after the fault cleared: {e}"));
                        return;
                    }
                    _ => {}
                }
                self.reopen_after_fault("flush");
                if self.fatal || self.crashed() {
                    return;
                }
                let r = self.do_flush(main_only);
                hist(|| format!("flush after reopening: {}", r.tag()));
                if self.crashed() {
                    return;
                }
                if !r.is_ok() {
                    self.die(&["C18"], "retry-after-reopen", format!("flush after the fault cleared and a reopen: {}", r.why()));
                    return;
                }
                probe("retry_ok_after_reopen");
                self.flush_acked(main_only);
            }
            o => {
                if self.crashed() {
                    return;
                }
                self.die(&["C01", "C02", "C18"], "flush-failed", format!("flush without any fault: {}", o.why()));
            }
        }
    }
    /// after a disk error whose effect is in doubt: the folder must open, with nothing flushed lost
    /// the node goes on after the error: a block that was refused must not be readable (a database
    /// that failed may refuse to answer)
    fn nothing_above_the_tip(&mut self, what: &str, maybe: &[Blk]) {
        if self.node.is_none() {
            return;
        }
        let mc = self.mc();
        let h = mc.get_height();
        for k in [h, h + 1] {
            if let Out::Ok(Some(_)) = attempt(|| mc.find_raw_by_height(&k)) {
                self.die(&["C03", "C18"], "block-above-tip", format!("after a disk error in {what} the height is {h} but height {k} reads as a block"));
                return;
            }
        }
        let n = self.m.main.len();
        match attempt(|| mc.get_last_raw_block()) {
            Out::Ok(Some(raw)) if h == U256::from(n) && raw != self.m.main[n - 1].dump => {
                self.die(&["C03", "C18"], "block-above-tip", format!("after a disk error in {what} the height is {h} but the last block is another one"));
                return;
            }
            _ => {}
        }
        if h != U256::from(n) {
            return;
        }
        for b in maybe {
            if let Out::Ok(Some(_)) = attempt(|| mc.find_raw_by_hash(&b.hash)) {
                self.die(&["C03", "C18"], "block-above-tip", format!("after a disk error in {what} the refused block is found by its hash"));
                return;
            }
        }
        probe("same_node_read_after_fault");
    }
    fn reopen_after_fault(&mut self, what: &str) {
        self.reopen_after_fault_maybe(what, vec![]);
    }
    fn reopen_after_fault_maybe(&mut self, what: &str, maybe: Vec<Blk>) {
        self.faults_off();
        if self.crashed() {
            return;
        }
        self.nothing_above_the_tip(what, &maybe);
        if self.fatal {
            return;
        }
        self.close();
        let r = self.open();
        hist(|| format!("reopen after the fault: {}", r.tag()));
        if self.crashed() {
            if !maybe.is_empty() {
                self.m.main.push(maybe[0].clone());
            }
            return;
        }
        if !r.is_ok() {
            self.die(&["C18", "C02"], "reopen-after-fault", format!("reopening after a disk error in {what}: {}", r.why()));
            return;
        }
        if !maybe.is_empty() {
            // one of these may have been recorded
            if let Out::Ok(Some(raw)) = attempt(|| self.mc().get_last_raw_block()) {
                if let Some(b) = maybe.iter().find(|b| b.dump == raw) {
                    self.m.main.push(b.clone());
                }
            }
        }
        self.adopt(Why::Fault);
    }
    fn restart(&mut self) {
        // closing is not what is being failed
        let rules = os::sim().rules.remove(DISK);
        let cap = std::mem::replace(&mut os::disk(DISK).capacity, u64::MAX);
        let slack = cap.saturating_sub(os::disk(DISK).used);
        self.close();
        if self.crashed() {
            return;
        }
        self.check_snapshot();
        if self.fatal || self.crashed() {
            return;
        }
        if let Some(r) = rules {
            if r.iter().all(|x| x.path.starts_with("DERIVATIVES")) {
                // these are for the opening of the derivative chains
                self.deriv_rules = Some((r, None));
            } else {
                os::set_rules(DISK, r);
            }
        }
        if cap != u64::MAX {
            let d = os::disk(DISK);
            d.capacity = d.used + slack;
        }
        let was = self.fired();
        let r = self.open();
        let fired = was || self.fired();
        hist(|| format!("restart: {}", r.tag()));
        self.faults_off();
        if self.crashed() {
            return;
        }
        probe("restart");
        match r {
            Out::Ok(()) => {
                self.adopt(if fired { Why::Fault } else { Why::Graceful });
                self.deriv_rules = None;
            }
            o if fired => {
                probe("open_failed_by_fault");
                if o.is_panic() {
                    self.die(&["C18"], "panic-on-disk-error", format!("open: {}", o.why()));
                    return;
                }
                self.close();
                let r = self.open();
                hist(|| format!("open again: {}", r.tag()));
                if self.crashed() {
                    return;
                }
                if !r.is_ok() {
                    self.die(&["C18", "C02"], "open-after-fault", format!("opening after the fault cleared: {}", r.why()));
                    return;
                }
                probe("retry_ok_after_reopen");
                self.adopt(Why::Fault);
            }
            o => self.die(&["C02", "C17", "C01"], "reopen", format!("reopening after a clean close: {}", o.why())),
        }
    }
    /// with the node closed, the snapshot folders must hold the closed epoch's ledgers
    fn check_snapshot(&mut self) {
        let Some((c, g, h)) = self.m.snap.clone() else { return };
        let mut kept = vec![];
        for (dir, want, gas) in [("SUMMARYOLD", &c, false), ("GASSUMMARYOLD", &g, true)] {
            let got = attempt(|| -> Result<Bal, String> {
                let db = sled::open(format!("{DIR}/{dir}")).map_err(|e| e.to_string())?;
                let mut b = Bal::new();
                for kv in db.iter() {
                    let (k, v) = kv.map_err(|e| e.to_string())?;
                    let a = (0..naddr()).find(|a| addr(*a)[..] == k[..]).unwrap_or(255);
                    let n = *v.first().unwrap_or(&0) as usize;
                    b.insert(a, U256::from_big_endian(v.get(1..1 + n).ok_or("short value")?));
                }
                Ok(b)
            });
            match got {
                Out::Ok(b) => {
                    if !same_balances(&b, want) || b.contains_key(&255) {
                        self.die(&["C10"], "snapshot", format!("{} snapshot of the closed epoch is {}, expected {}", led(gas), show(&b), show(want)));
                        return;
                    }
                    probe("snapshot_checked");
                    kept.push(b);
                }
                o => {
                    if self.crashed() {
                        return;
                    }
                    self.die(&["C10"], "snapshot", format!("{} snapshot cannot be opened: {}", led(gas), o.why()));
                    return;
                }
            }
        }
        // with the entries as they are on disk, those that hold nothing included
        let Some(b) = self.m.main.get(h as usize) else { return };
        let Out::Ok(b) = attempt(|| block::deserialize_main_chain_block(&b.dump)) else { return };
        if b.get_merkle_root() != summary_root(&kept[0], &kept[1]) {
            self.die(&["C10"], "summary-root", format!("epoch block {h}: its root does not commit to the entries kept of the closed epoch, coins {} gas {}", show(&kept[0]), show(&kept[1])));
        }
    }

    /// full service: reads, a block, balances, a flush
    fn probe(&mut self) {
        self.full();
        if self.fatal {
            return;
        }
        self.emit(1, 600, 1, Pow::Good, false, None);
        if self.fatal || self.crashed() {
            return;
        }
        self.ledger(false, "add 1 3", |b| credit(b, 1, U256::from(3)), |n| n.add_amount(&addr(1), U256::from(3)));
        if self.fatal || self.crashed() {
            return;
        }
        self.ledger(true, "add 1 2", |b| credit(b, 1, U256::from(2)), |n| n.add_gas(&addr(1), U256::from(2)));
        for o in self.owners.clone() {
            if self.fatal || self.crashed() {
                return;
            }
            self.demit(o, 600, Pow::Good);
        }
        if self.fatal || self.crashed() {
            return;
        }
        self.flush(false);
        probe("full_service");
    }
    fn finish(&mut self) {
        if self.pending.is_some() {
            let (c, _) = self.pending.clone().unwrap();
            self.pending = Some((CrashSpec { after: None, ..c }, 0));
            self.tick_pending();
        }
        if self.fatal || violated() {
            return;
        }
        self.full();
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Why {
    Graceful,
    Crash,
    Fault,
}

fn st_cur(m: &Model, gas: bool) -> &Bal {
    if gas { m.gas.cur() } else { m.coins.cur() }
}
pub fn led(gas: bool) -> &'static str {
    if gas { "gas" } else { "coin" }
}
/// heights which a comparison of fewer bytes would take for the right one
fn far(salt: u32) -> U256 {
    match salt % 6 {
        0 => U256::zero(),
        1 => U256::from(1u64 << 32) - 1000 - salt % 7,
        2 => (U256::one() << 64) - 1000 - salt % 7,
        3 => (U256::one() << 128) - 1000 - salt % 7,
        4 => U256::MAX - U256::from(1u64 << 32),
        _ => (U256::one() << 248) - 1000 - salt % 7,
    }
}
pub fn credit(b: &mut Bal, a: u8, x: U256) -> bool {
    match b.get(&a).copied().unwrap_or_default().checked_add(x) {
        Some(v) => {
            b.insert(a, v);
            true
        }
        None => false,
    }
}
pub fn debit(b: &mut Bal, a: u8, x: U256) -> bool {
    match b.get(&a).copied().unwrap_or_default().checked_sub(x) {
        Some(v) => {
            b.insert(a, v);
            true
        }
        None => false,
    }
}
pub fn transfer(b: &mut Bal, from: u8, to: u8, x: U256) -> bool {
    if from == to {
        return true;
    }
    let mut c = b.clone();
    if debit(&mut c, from, x) && credit(&mut c, to, x) {
        *b = c;
        return true;
    }
    false
}
pub fn resolve(v: &Amt, from: U256, to: U256) -> U256 {
    let one = U256::one();
    match v {
        Amt::N(x) => U256::from(*x),
        Amt::Zero => U256::zero(),
        Amt::Bal => from,
        Amt::BalPlus1 => from.saturating_add(one),
        Amt::BalMinus1 => from.saturating_sub(one),
        Amt::Half => from >> 1,
        Amt::Max => U256::MAX,
        Amt::Room => U256::MAX - to,
        Amt::RoomPlus1 => (U256::MAX - to).saturating_add(one),
        Amt::Pow2(k) => one << (*k as usize % 256),
        Amt::Over(k) => from.saturating_add(one << (*k as usize % 256)),
        Amt::Under(k) => from.saturating_sub(one << (*k as usize % 256)),
        Amt::Rnd { bits, seed } => {
            let mut b = [0u8; 32];
            crate::os::rng::Rng::new(*seed, 3).fill(&mut b);
            let n = *bits as usize % 256;
            if n == 0 {
                return one;
            }
            // exactly that many bits
            (U256::from_big_endian(&b) >> (256 - n)) | (one << (n - 1))
        }
    }
}
pub const LARGE: [usize; 5] = [4_096, 20_000, 65_535, 65_536, 70_001];
pub fn make_tx(from: u8, to: u8, x: U256, salt: u32, data: u8) -> Transaction {
    let mut sig = [0x5A; 64];
    sig[..4].copy_from_slice(&salt.to_be_bytes());
    let d = match data {
        0 if salt % 7 == 3 => Some(Vec::new()),
        0 => None,
        1..=149 => Some(vec![data; data as usize % 40 + 1]),
        251..=255 => Some((0..LARGE[data as usize - 251]).map(|k| (k % 251) as u8).collect()),
        _ => Some(vec![data; (data as usize - 149) * 17]),
    };
    // mostly ordinary times of sending
    let ts = match salt % 17 {
        5 => 0,
        9 => u64::MAX,
        13 => 1 << (salt % 64),
        _ => 1_600_000_000 + salt as u64,
    };
    Transaction::new_signed(addr(from), addr(to), ts, x, d, sig)
}
pub fn shift(ts: u64, dt: i64) -> u64 {
    if dt == i64::MAX {
        return u64::MAX;
    }
    if dt >= 0 {
        ts.saturating_add(dt as u64)
    } else {
        ts.saturating_sub(dt.unsigned_abs())
    }
}
/// the number of transactions a plan asks for: 41 and up stand for long lists
pub fn many(n: u8) -> u64 {
    if n <= 40 {
        n as u64
    } else {
        n as u64 * 3
    }
}
fn tx_list(known: &[(Transaction, H, Vec<u8>)], n: u8, h: u64, dt: i64) -> Vec<H> {
    (0..many(n))
        .map(|k| match known.get((h + k) as usize) {
            Some(t) if k % 2 == 0 => t.1,
            _ => sha(&[&h.to_be_bytes(), &k.to_be_bytes(), &dt.to_be_bytes()]),
        })
        .collect()
}
pub fn mine(prev: &H, root: &H, need: u32, kind: Pow, salt: u64, prev2: &H) -> Option<H> {
    const B: u64 = 1 << 17;
    if need > 15 {
        return None;
    }
    match kind {
        Pow::Good => find_pow(prev, root, salt, B, |z| z == need),
        Pow::Better => find_pow(prev, root, salt, B, |z| z > need),
        Pow::Bad => find_pow(prev, root, salt, B, |z| z + 1 == need),
        Pow::WrongTxs => {
            let other = merkle(&[[0x11; 32], sha(&[root])]);
            for k in 0..64 {
                let p = find_pow(prev, &other, salt + k * 1_000_003, B, |z| z >= need)?;
                if pow_zeros(prev, root, &p) < need {
                    return Some(p);
                }
            }
            None
        }
        Pow::Stale => {
            for k in 0..64 {
                let p = find_pow(prev2, root, salt + k * 1_000_003, B, |z| z >= need)?;
                if pow_zeros(prev, root, &p) < need {
                    return Some(p);
                }
            }
            None
        }
    }
}
/// the commitment to all (address, coins, gas) entries
pub fn summary_root(c: &Bal, g: &Bal) -> H {
    let mut v: Vec<([u8; 33], Vec<u8>)> = c
        .iter()
        .map(|(a, x)| {
            let mut d = addr(*a).to_vec();
            d.push(b'|');
            d.extend(num(x));
            d.push(b'|');
            if let Some(y) = g.get(a) {
                d.extend(num(y));
            }
            (addr(*a), d)
        })
        .collect();
    v.sort();
    merkle(&v.iter().map(|x| sha(&[&x.1])).collect::<Vec<_>>())
}
/// an entry that holds nothing may be present or absent
pub fn summary_roots(c: &Bal, g: &Bal) -> Vec<H> {
    let full = |b: &Bal| -> Bal {
        // the accounts of a bulk funding are never empty: they are there or not
        let few = (0..NADDR as u8).map(|a| (a, b.get(&a).copied().unwrap_or_default()));
        few.chain(b.range(NADDR as u8..).filter(|x| !x.1.is_zero()).map(|x| (*x.0, *x.1))).collect()
    };
    let (c, g) = (full(c), full(g));
    let zc: Vec<u8> = c.iter().filter(|x| x.1.is_zero()).map(|x| *x.0).collect();
    let zg: Vec<u8> = g.iter().filter(|x| x.1.is_zero()).map(|x| *x.0).collect();
    let mut out = vec![];
    for m in 0..1u32 << zc.len() {
        let mut c2 = c.clone();
        for (i, a) in zc.iter().enumerate() {
            if m >> i & 1 == 1 {
                c2.remove(a);
            }
        }
        let zg2: Vec<u8> = zg.iter().copied().filter(|a| c2.contains_key(a)).collect();
        for k in 0..1u32 << zg2.len() {
            let mut g2 = g.clone();
            for (i, a) in zg2.iter().enumerate() {
                if k >> i & 1 == 1 {
                    g2.remove(a);
                }
            }
            out.push(summary_root(&c2, &g2));
        }
    }
    out
}
#[allow(clippy::too_many_arguments)]
fn expected_block(h: u64, tip: &Blk, ts: u64, p: &H, founder: u8, txs: &[H], epoch: bool, roots: &[H]) -> Vec<Blk> {
    let info = block::BasicInfo::new(ts, *p, tip.hash, U256::from(h), retarget(tip.ts, ts, &tip.diff), addr(founder));
    if epoch {
        roots
            .iter()
            .map(|r| blk_of(&block::SummarizeBlock { default_info: info.clone(), merkle_tree_root: *r }, true))
            .collect()
    } else {
        let fee = *FEE_STEP * U256::from(lz(&info.difficulty));
        vec![blk_of(&block::TransactionBlock::new(fee, info, merkle(txs), txs.to_vec()), true)]
    }
}
fn tags_of(op: &Op) -> &'static [&'static str] {
    match op {
        Op::Emit { .. } => &["C11", "C10"],
        Op::AddBlock { .. } => &["C03"],
        Op::ClockWalk { .. } => &["C11"],
        Op::Tx { .. } | Op::ReTx { .. } => &["C08", "C09"],
        Op::Restart => &["C17"],
        Op::Flush | Op::FlushMain => &["C18"],
        Op::DEmit { .. } | Op::DAdd { .. } | Op::DFlush { .. } | Op::DPrefill { .. } => &["C04"],
        _ => LEDGER_TAGS,
    }
}
