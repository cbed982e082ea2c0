//! A plan is everything one simulated run does; together with the scheduler's seed (or an explicit
//! list of scheduling deviations) it determines the run completely.
use crate::os::{vfs::CrashMode, FaultRule};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct KnobCfg {
    pub switch: u64,
    pub random_pick: u64,
    pub slow_io: u64,
    pub short: u64,
    pub eintr: u64,
    pub spurious: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Amt {
    N(u64),
    Zero,
    /// exactly the balance of the account that pays (or is debited)
    Bal,
    BalPlus1,
    BalMinus1,
    Half,
    Max,
    /// exactly what the receiver can still hold
    Room,
    RoomPlus1,
    Pow2(u8),
    /// more, or less, than the balance by a power of two
    Over(u8),
    Under(u8),
    /// a number of that many bits
    Rnd { bits: u8, seed: u64 },
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Pow {
    /// meets the target exactly
    Good,
    /// more than meets the target
    Better,
    /// misses it by one bit
    Bad,
    /// proves another transaction list
    WrongTxs,
    /// proves the previous tip
    Stale,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Fit {
    Next,
    Past,
    Tip,
    Future,
    FarFuture,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CrashSpec {
    pub mode: CrashMode,
    pub seed: u64,
    /// None: between operations; Some(n): inside the n-th modifying disk operation from now
    pub after: Option<u64>,
    pub before: bool,
    /// how many steps may pass before the crash is forced
    pub span: u8,
    /// crashes and disk errors while the node recovers
    pub reopen: Vec<CrashSpec>,
    /// in a nested entry: no crash, but an attempt to reopen with this failing
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<FaultRule>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Net {
    /// a message: from, to, what
    Deliver,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    // ---- main chain
    Emit { founder: u8, dt: i64, ntx: u8, pow: Pow, mismatch: bool },
    AddBlock { fit: Fit, ntx: u8, salt: u32 },
    /// many fitting blocks, many funded accounts
    Prefill { n: u16, salt: u32 },
    Bulk { n: u8, seed: u64 },
    /// the retargeting over many blocks of a chain whose clock does as it likes (the proofs of
    /// work of such a chain are out of reach: the rule itself is followed)
    ClockWalk { n: u16, seed: u64 },
    // ---- ledgers
    Add { gas: bool, a: u8, v: Amt },
    Sub { gas: bool, a: u8, v: Amt },
    Set { a: u8, v: Amt },
    Send { gas: bool, from: u8, to: u8, v: Amt },
    Balance { gas: bool, a: u8 },
    // ---- transactions
    Tx { from: u8, to: u8, v: Amt, salt: u32, data: u8 },
    ReTx { idx: u8 },
    TxExists { idx: u8 },
    // ---- derivative chains
    DEmit { owner: u8, dt: i64, pow: Pow },
    DAdd { owner: u8, fit: Fit, salt: u32 },
    DFlush { owner: u8 },
    /// many fitting blocks
    DPrefill { owner: u8, n: u16, salt: u32 },
    // ---- durability and faults
    Flush,
    FlushMain,
    Sleep { ms: u32 },
    Restart,
    Crash(CrashSpec),
    Fault { rules: Vec<FaultRule>, cap: Option<u64> },
    /// the node must be fully operational: emits, updates, flushes
    Probe,
    // ---- concurrent readers (engine s2)
    ReadHeight,
    ReadLast,
    ReadAt { back: u8 },
    ReadHash { back: u8 },
    Yield { n: u8 },
    /// other parts of the node are used meanwhile; not part of the checked history
    Noise { kind: u8, salt: u32 },
    /// the caller drops the future of this call when it is pending for that many times
    Abandon { what: Box<Op>, polls: u8, hold: u8 },
    // ---- pool
    Push { item: u16 },
    Pop,
    Len,
    Contains { item: u16 },
    // ---- summary store
    AddFunds { a: u8, v: Amt },
    DecFunds { a: u8, v: Amt },
    GetFunds { a: u8 },
    // ---- cluster
    NodeCrash { n: u8, spec: CrashSpec },
    NodeRestart { n: u8 },
    Part { mask: u8 },
    Heal,
    NetTx { at: u8, from: u8, to: u8, v: Amt, salt: u32, data: u8, copies: u8 },
    NetBlock { dt: i64, ntx: u8 },
    NetDeriv { owner: u8, dt: i64 },
    Tick { n: u8 },
    Forge { kind: u8, salt: u32 },
    Garble { kind: u8, salt: u32 },
    NodeFlush { n: u8 },
    // ---- archive
    Compress { size: u32, kind: u8, seed: u64 },
    Decompress,
    Cut { at: u32, of: u32 },
    Folder,
    CopyTree { to: u8 },
    Remove,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step {
    pub c: u8,
    pub op: Op,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub engine: String,
    pub prop: String,
    pub index: u64,
    pub seed: u64,
    pub knobs: KnobCfg,
    pub steps: Vec<Step>,
    pub params: BTreeMap<String, u64>,
    /// explicit schedule: decision index -> thread, default otherwise
    pub dev: Option<Vec<(u64, u32)>>,
}
impl Plan {
    pub fn param(&self, k: &str, d: u64) -> u64 {
        self.params.get(k).copied().unwrap_or(d)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Violation {
    pub props: Vec<String>,
    pub class: String,
    pub detail: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RunResult {
    pub violations: Vec<Violation>,
    pub steps: u64,
    pub decisions: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub disk_ops: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub hist_hash: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub deviations: Vec<(u64, u32)>,
    pub trace: Vec<String>,
    pub denied: Vec<String>,
    pub ops_done: u64,
}
