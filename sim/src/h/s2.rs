//! Engine S2: several callers share one node (or pool, or summary store) at the same time; the
//! scheduler interleaves them, crashes strike in the middle, and the recorded history is checked
//! for linearizability against a small sequential model.
use super::gen;
use super::model::*;
use super::plan::*;
use super::s1::{blk_of, credit, led, make_tx, mine, resolve, same_balances, show, transfer, Bal, Blk, DIR, DISK};
use super::wgl::{linearizable, Ev, Verdict};
use super::world::*;
use crate::os::{self, rng::Rng, vfs::CrashMode};
use blockchaintree::block::{self, BlockArc};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::chain::{DerivativeChain, MainChain};
use blockchaintree::static_values::*;
use blockchaintree::summary_db::SummaryDB;
use blockchaintree::transaction::{Transaction, Transactionable};
use blockchaintree::txpool::{SharedTxPool, TxPool};
use primitive_types::U256;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const MAIN_THREAD: u8 = 15;
const OWNER: u8 = 2;
const SUMDIR: &str = "/sim/n0/SUM";

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Chain,
    Deriv,
    Ledger,
    Submit,
    Pool,
    Sum,
}
const MODES: &[Mode] = &[Mode::Chain, Mode::Deriv, Mode::Ledger, Mode::Submit, Mode::Pool, Mode::Sum];

/// one recorded call with its result
#[derive(Clone, Debug)]
enum K {
    Submit { id: usize, at: u64, ok: bool },
    Height(u64),
    Last(Option<usize>),
    At { h: u64, id: Option<usize> },
    ByHash { id: usize, found: bool },
    Add { gas: bool, a: u8, x: U256, ok: bool },
    Sub { gas: bool, a: u8, x: U256, ok: bool },
    Set { a: u8, x: U256 },
    Send { gas: bool, from: u8, to: u8, x: U256, ok: bool },
    Get { gas: bool, a: u8, v: U256 },
    Tx { i: usize, ok: bool },
    Exists { i: usize, found: bool },
    Push { i: u16, new: bool },
    Pop(Option<u16>),
    Len(u64),
    Has { i: u16, found: bool },
    Content(BTreeSet<u16>),
    Fund { a: u8, x: U256, ok: bool },
    Unfund { a: u8, x: U256, ok: bool },
    Funds { a: u8, v: U256 },
    Flush { ok: bool },
    /// the state a crash left on the disk
    Snap(Vec<U256>),
}
#[derive(Clone, Debug)]
struct Rec {
    c: u8,
    ev: Ev<K>,
}

/// shared by all clients; only the thread that holds the baton touches it
#[derive(Default)]
struct World {
    hist: Vec<Rec>,
    blocks: Vec<Blk>,
    /// transactions carried by each block
    carried: Vec<Vec<H>>,
    /// transactions that a block carried before a crash: their presence is not checked any more
    tx_doubt: BTreeSet<H>,
    txs: Vec<(Transaction, H, Vec<u8>, u8, u8, U256)>,
    items: Vec<(u64, H)>,
}
static mut WORLD: *mut World = std::ptr::null_mut();
fn w() -> &'static mut World {
    unsafe {
        if WORLD.is_null() {
            WORLD = Box::into_raw(Box::default());
        }
        &mut *WORLD
    }
}
fn block_id(dump: &[u8]) -> Option<usize> {
    w().blocks.iter().position(|b| b.dump == dump)
}

#[derive(Clone)]
struct Sh {
    mode: Mode,
    node: Option<Arc<BlockChainTree>>,
    main: Option<MainChain>,
    dch: Option<DerivativeChain>,
    pool: Option<SharedTxPool>,
    sum: Option<Arc<SummaryDB>>,
}

fn rec<R>(c: u8, f: impl FnOnce() -> R, k: impl FnOnce(&R) -> Option<K>) -> R {
    let inv = os::event();
    let r = f();
    let resp = os::event();
    if let Some(op) = k(&r) {
        os::note(|| format!("client {c} [{inv},{resp}] {op:?}"));
        w().hist.push(Rec { c, ev: Ev { inv, resp, op } });
    }
    r
}

fn tags(m: Mode) -> &'static [&'static str] {
    match m {
        Mode::Chain => &["C05", "C03"],
        Mode::Deriv => &["C05", "C04"],
        Mode::Ledger => &["C07"],
        Mode::Submit => &["C08", "C09"],
        Mode::Pool => &["C14"],
        Mode::Sum => &["C15"],
    }
}

// ---------------------------------------------------------------- what clients do
struct Client {
    c: u8,
    sh: Sh,
    rt: tokio::runtime::Runtime,
}
impl Client {
    fn bad(&self, class: &str, d: String) {
        violate(tags(self.sh.mode), class, format!("client {}: {d}", self.c));
    }
    fn height(&self) -> u64 {
        rec(
            self.c,
            || match self.sh.mode {
                Mode::Chain => self.sh.main.as_ref().unwrap().get_height().as_u64(),
                _ => self.sh.dch.as_ref().unwrap().get_height().as_u64(),
            },
            |h| Some(K::Height(*h)),
        )
    }
    fn raw_at(&self, h: u64) -> Out<Option<Vec<u8>>> {
        let k = U256::from(h);
        match self.sh.mode {
            Mode::Chain => attempt(|| self.sh.main.as_ref().unwrap().find_raw_by_height(&k)),
            _ => attempt(|| self.sh.dch.as_ref().unwrap().find_raw_by_height(&k)),
        }
    }
    fn seen(&self, what: &str, r: Out<Option<Vec<u8>>>, k: impl FnOnce(Option<usize>) -> K, inv: u64) -> Option<usize> {
        let resp = os::event();
        let id = match r {
            Out::Ok(None) => None,
            Out::Ok(Some(d)) => match block_id(&d) {
                Some(i) => Some(i),
                None => {
                    self.bad("torn-read", format!("{what} returned {} bytes that are no submitted block", d.len()));
                    return None;
                }
            },
            o => {
                self.bad("read-failed", format!("{what}: {}", o.why()));
                return None;
            }
        };
        let op = k(id);
        os::note(|| format!("client {} [{inv},{resp}] {op:?}", self.c));
        w().hist.push(Rec { c: self.c, ev: Ev { inv, resp, op } });
        id
    }
    fn read_at(&self, h: u64) -> Option<usize> {
        let inv = os::event();
        let r = self.raw_at(h);
        self.seen(&format!("reading height {h}"), r, |id| K::At { h, id }, inv)
    }
    fn read_last(&self) -> Option<usize> {
        let inv = os::event();
        let r = match self.sh.mode {
            Mode::Chain => attempt(|| self.sh.main.as_ref().unwrap().get_last_raw_block()),
            _ => attempt(|| self.sh.dch.as_ref().unwrap().get_last_raw_block()),
        };
        self.seen("reading the last block", r, K::Last, inv)
    }
    fn read_hash(&self, id: usize) {
        let hash = w().blocks[id].hash;
        let inv = os::event();
        let r = match self.sh.mode {
            Mode::Chain => attempt(|| self.sh.main.as_ref().unwrap().find_raw_by_hash(&hash)),
            _ => attempt(|| self.sh.dch.as_ref().unwrap().find_raw_by_hash(&hash)),
        };
        self.seen(
            "reading by hash",
            r,
            |got| {
                if got.is_some() && got != Some(id) {
                    self.bad("wrong-block", format!("the hash of block {id} resolves to block {got:?}"));
                }
                K::ByHash { id, found: got.is_some() }
            },
            inv,
        );
    }
    fn submit_block(&self, fit: Fit, ntx: u8, salt: u32) {
        let h = self.height();
        let at = match fit {
            Fit::Next => h,
            Fit::Past => h.saturating_sub(2),
            Fit::Tip => h.saturating_sub(1),
            Fit::Future => h + 1,
            Fit::FarFuture => h + 100 + salt as u64 % 3,
        };
        let prev_id = if at == 0 { None } else { self.read_at(at - 1) };
        let (prev, diff, pts) = match prev_id {
            Some(i) => {
                let b = &w().blocks[i];
                (b.hash, b.diff, b.ts)
            }
            None if self.sh.mode == Mode::Deriv => (*self.sh.dch.as_ref().unwrap().genesis_hash, EASIEST, INCEPTION_TIMESTAMP),
            None => ([3; 32], EASIEST, INCEPTION_TIMESTAMP),
        };
        let ts = pts + 600;
        let deriv = self.sh.mode == Mode::Deriv;
        let list: Vec<Transaction> = if deriv {
            vec![]
        } else {
            (0..ntx).map(|k| make_tx(4, 5, U256::from(salt), (at as u32) << 16 ^ salt << 4 ^ k as u32, k)).collect()
        };
        let mut hashes: Vec<H> = list.iter().map(|t| sha(&[&t.dump().unwrap()])).collect();
        if hashes.is_empty() && !deriv {
            hashes.push(sha(&[&salt.to_be_bytes(), &at.to_be_bytes()]));
        }
        let root = merkle(&hashes);
        let p = mine(&prev, &root, lz(&diff), Pow::Good, salt as u64, &[9; 32]).unwrap_or([0; 32]);
        let info = block::BasicInfo::new(ts, p, prev, U256::from(at), retarget(pts, ts, &diff), addr(3));
        let main: Option<BlockArc>;
        let der;
        let blk = if deriv {
            main = None;
            der = Some(block::DerivativeBlock { default_info: info });
            blk_of(der.as_ref().unwrap(), true)
        } else {
            der = None;
            let fee = *FEE_STEP * U256::from(lz(&info.difficulty));
            main = Some(Arc::new(block::TransactionBlock::new(fee, info, root, hashes)));
            blk_of(&**main.as_ref().unwrap(), true)
        };
        let id = match block_id(&blk.dump) {
            Some(i) => {
                probe("same_block_submitted_again");
                i
            }
            None => {
                let x = w();
                x.blocks.push(blk);
                x.carried.push(list.iter().map(|t| sha(&[&t.dump().unwrap()])).collect());
                x.blocks.len() - 1
            }
        };
        let r = rec(
            self.c,
            || match main {
                Some(b) => attempt(|| self.sh.node.as_ref().unwrap().add_new_block(b, &list)),
                None => attempt(|| self.sh.dch.as_ref().unwrap().add_block(der.as_ref().unwrap())),
            },
            |r| Some(K::Submit { id, at, ok: r.is_ok() }),
        );
        probe(if r.is_ok() { "block_accepted" } else { "block_refused" });
        if r.is_panic() {
            self.bad("submit-panic", r.why());
        }
    }
    fn get(&self, gas: bool, a: u8) -> U256 {
        let n = self.sh.node.as_ref().unwrap();
        let r = rec(
            self.c,
            || attempt(|| if gas { n.get_gas(&addr(a)) } else { n.get_amount(&addr(a)) }),
            |r| match r {
                Out::Ok(v) => Some(K::Get { gas, a, v: *v }),
                _ => None,
            },
        );
        match r {
            Out::Ok(v) => v,
            o => {
                self.bad("read-failed", format!("{} balance of {a}: {}", led(gas), o.why()));
                U256::zero()
            }
        }
    }
    fn amt(&self, v: &Amt, gas: bool, from: u8, to: u8) -> U256 {
        let (f, t) = match v {
            Amt::Bal | Amt::BalPlus1 | Amt::BalMinus1 | Amt::Half | Amt::Over(_) | Amt::Under(_) => (self.get(gas, from), U256::zero()),
            Amt::Room | Amt::RoomPlus1 => (U256::zero(), self.get(gas, to)),
            _ => Default::default(),
        };
        resolve(v, f, t)
    }
    fn ledger(&self, name: String, f: impl FnOnce(&BlockChainTree) -> Result<(), error_stack::Report<blockchaintree::errors::BlockChainTreeError>>, k: impl FnOnce(bool) -> K) {
        let n = self.sh.node.as_ref().unwrap();
        let r = rec(self.c, || attempt(|| f(n)), |r| Some(k(r.is_ok())));
        if r.is_panic() {
            self.bad("ledger-panic", format!("{name}: {}", r.why()));
        }
        probe(if r.is_ok() { "update_accepted" } else { "update_refused" });
    }
    fn tx_index(&self, t: Transaction, from: u8, to: u8, x: U256) -> usize {
        let d = t.dump().unwrap();
        let h = sha(&[&d]);
        let wd = w();
        match wd.txs.iter().position(|y| y.1 == h) {
            Some(i) => i,
            None => {
                wd.txs.push((t, h, d, from, to, x));
                wd.txs.len() - 1
            }
        }
    }
    fn submit_tx(&self, i: usize) {
        let t = w().txs[i].0.clone();
        let n = self.sh.node.as_ref().unwrap();
        let r = rec(self.c, || attempt(|| n.send_transaction(&t)), |r| Some(K::Tx { i, ok: r.is_ok() }));
        if r.is_panic() {
            self.bad("submit-panic", r.why());
        }
        probe(if r.is_ok() { "tx_accepted" } else { "tx_refused" });
    }
    fn flush(&self, main_only: bool) {
        let r = rec(
            self.c,
            || match self.sh.mode {
                Mode::Deriv => attempt(|| self.rt.block_on(self.sh.dch.as_ref().unwrap().flush())),
                Mode::Sum => attempt(|| self.rt.block_on(self.sh.sum.as_ref().unwrap().flush())),
                _ if main_only => attempt(|| self.rt.block_on(self.sh.main.as_ref().unwrap().flush())),
                _ => attempt(|| self.rt.block_on(self.sh.node.as_ref().unwrap().flush())),
            },
            |r| Some(K::Flush { ok: r.is_ok() && !main_only }),
        );
        if main_only && r.is_ok() && matches!(self.sh.mode, Mode::Chain) {
            if let Some(K::Flush { ok }) = w().hist.last_mut().map(|x| &mut x.ev.op) {
                *ok = true;
            }
        }
        if !r.is_ok() {
            violate(&["C01", "C18"], "flush-failed", format!("a flush without any fault: {}", r.why()));
        }
        probe("concurrent_flush");
    }
    /// a call whose caller gives up waiting
    fn abandoned(&self, what: &Op, polls: u8, hold: u8) {
        let main_only = matches!(what, Op::FlushMain);
        match what {
            Op::Flush | Op::FlushMain => {
                let r = match self.sh.mode {
                    Mode::Deriv => attempt_opt(|| self.rt.block_on(abandon(self.sh.dch.as_ref().unwrap().flush(), polls, hold))),
                    Mode::Sum => attempt_opt(|| self.rt.block_on(abandon(self.sh.sum.as_ref().unwrap().flush(), polls, hold))),
                    _ if main_only => attempt_opt(|| self.rt.block_on(abandon(self.sh.main.as_ref().unwrap().flush(), polls, hold))),
                    _ => attempt_opt(|| self.rt.block_on(abandon(self.sh.node.as_ref().unwrap().flush(), polls, hold))),
                };
                match r {
                    None => probe("flush_abandoned"),
                    Some(Out::Ok(())) => probe("flush_finished_before_it_was_abandoned"),
                    Some(o) => violate(&["C01", "C18"], "flush-failed", format!("a flush without any fault: {}", o.why())),
                }
            }
            Op::AddFunds { a, v } | Op::DecFunds { a, v } => {
                let add = matches!(what, Op::AddFunds { .. });
                let a = *a;
                let x = self.sum_amt(v, a);
                let s = self.sh.sum.clone().unwrap();
                let inv = os::event();
                let r = attempt_opt(|| {
                    self.rt.block_on(async {
                        if add {
                            abandon(s.add_funds(&addr(a), &x), polls, hold).await
                        } else {
                            abandon(s.decrease_funds(&addr(a), &x), polls, hold).await
                        }
                    })
                });
                let resp = match &r {
                    None => {
                        probe("update_abandoned");
                        os::event();
                        u64::MAX
                    }
                    Some(_) => os::event(),
                };
                let ok = r.as_ref().map_or(true, |r| r.is_ok());
                let op = if add { K::Fund { a, x, ok } } else { K::Unfund { a, x, ok } };
                os::note(|| format!("client {} [{inv},{resp}] {op:?}", self.c));
                w().hist.push(Rec { c: self.c, ev: Ev { inv, resp, op } });
                if let Some(r) = r {
                    self.sum_seen("update", &r);
                }
            }
            o => self.exec(o),
        }
    }
    /// traffic on the parts of the node whose history is not checked in this run
    fn noise(&self, kind: u8, salt: u32) {
        let (Some(node), Some(main)) = (&self.sh.node, &self.sh.main) else { return };
        let blocks = self.sh.mode != Mode::Chain;
        let ledgers = matches!(self.sh.mode, Mode::Chain | Mode::Deriv);
        let a = 1 + (salt % 4) as u8;
        let b = 1 + (salt / 4 % 4) as u8;
        let fail = |what: &str, y: String| self.bad("noise-failed", format!("{what}: {y}"));
        probe("noise");
        match kind % 6 {
            0 | 1 if blocks => {
                let last = match attempt(|| main.get_last_block()) {
                    Out::Ok(Some(b)) => b,
                    o => return fail("reading the last main block", if o.is_ok() { "none".into() } else { o.why() }),
                };
                let i = last.get_info();
                let prev = last.hash().unwrap();
                let hashes = vec![sha(&[b"noise", &salt.to_be_bytes()])];
                let root = merkle(&hashes);
                let p = mine(&prev, &root, lz(&i.difficulty), Pow::Good, salt as u64, &[9; 32]).unwrap_or([0; 32]);
                let info = block::BasicInfo::new(i.timestamp + 600, p, prev, i.height + 1, i.difficulty, addr(3));
                let fee = *FEE_STEP * U256::from(lz(&i.difficulty));
                let blk: BlockArc = Arc::new(block::TransactionBlock::new(fee, info, root, hashes));
                let none: Vec<Transaction> = vec![];
                let r = attempt(|| node.add_new_block(blk, &none));
                if r.is_panic() {
                    fail("a main block", r.why());
                }
                probe(if r.is_ok() { "noise_block_accepted" } else { "noise_block_refused" });
            }
            2 if blocks => {
                let h = main.get_height();
                for k in 1..3u64 {
                    let at = h.saturating_sub(U256::from(k));
                    match attempt(|| main.find_raw_by_height(&at)) {
                        Out::Ok(Some(_)) => {}
                        o => return fail("reading a main block", if o.is_ok() { "none".into() } else { o.why() }),
                    }
                }
            }
            0..=2 if ledgers => {
                let x = U256::from(salt % 1000 + 1);
                let r = match salt % 5 {
                    0 => attempt(|| node.add_amount(&addr(a), x)),
                    1 => attempt(|| node.add_gas(&addr(a), x * U256::from(1_000_000_000_000_000u64))),
                    2 => attempt(|| node.sub_amount(&addr(a), x)),
                    3 => attempt(|| node.send_amount(&addr(a), &addr(b), x)),
                    _ => attempt(|| node.send_gas(&addr(a), &addr(b), x)),
                };
                if r.is_panic() {
                    fail("a ledger update", r.why());
                }
            }
            3 if ledgers => {
                let t = make_tx(6, b, U256::from(salt), salt ^ 0x5000_0000, (salt % 9) as u8);
                let _ = attempt(|| node.add_amount(&addr(6), U256::from(1_000_000u64)));
                let _ = attempt(|| node.add_gas(&addr(6), U256::from(1_000_000_000_000_000u64)));
                let r = attempt(|| node.send_transaction(&t));
                if r.is_panic() {
                    fail("a transaction", r.why());
                }
            }
            4 => {
                for x in [a, b] {
                    let c = attempt(|| node.get_amount(&addr(x)));
                    let g = attempt(|| node.get_gas(&addr(x)));
                    if !c.is_ok() || !g.is_ok() {
                        return fail("reading balances", c.why() + &g.why());
                    }
                }
            }
            5 => {
                let r = attempt(|| self.rt.block_on(main.flush()));
                if !r.is_ok() {
                    violate(&["C01", "C18"], "flush-failed", format!("a flush without any fault: {}", r.why()));
                }
            }
            _ => {
                let Some(d) = (if self.sh.mode == Mode::Deriv { None } else { self.sh.dch.as_ref() }) else { return };
                let h = d.get_height();
                let prev = if h.is_zero() { *d.genesis_hash } else { [salt as u8; 32] };
                let info = block::BasicInfo::new(INCEPTION_TIMESTAMP + salt as u64, [1; 32], prev, h, EASIEST, addr(OWNER));
                let r = attempt(|| d.add_block(&block::DerivativeBlock { default_info: info }));
                if r.is_panic() {
                    fail("a derivative block", r.why());
                }
            }
        }
    }
    fn pool_op(&self, op: &Op, hold: u64) {
        let pool = self.sh.pool.clone().unwrap();
        let c = self.c;
        let item = |i: u16| -> u16 { i % w().items.len() as u16 };
        let wait = |n: u64| {
            for _ in 0..n {
                os::yield_now();
            }
        };
        match op {
            Op::Push { item: i } => {
                let i = item(*i);
                let inv = os::event();
                let new = self.rt.block_on(async {
                    let mut g = pool.write().await;
                    wait(hold);
                    attempt(|| Ok::<_, ()>(g.push(pool_item(i))))
                });
                self.pool_rec(inv, new, |n| K::Push { i, new: n });
            }
            Op::Pop => {
                let inv = os::event();
                let r = self.rt.block_on(async {
                    let mut g = pool.write().await;
                    wait(hold);
                    attempt(|| Ok::<_, ()>(g.pop()))
                });
                let r = match r {
                    Out::Ok(None) => Out::Ok(None),
                    Out::Ok(Some((h, t))) => {
                        let id = w().items.iter().position(|x| x.1 == h);
                        match id {
                            Some(i) if t.hash() == h && t.get_timestamp() == w().items[i].0 && t.dump().map(|d| sha(&[&d]) == h).unwrap_or(false) => Out::Ok(Some(i as u16)),
                            _ => {
                                self.bad("pool-invented", format!("pop returned {} which was never pushed, or under another hash", hex8(&h)));
                                return;
                            }
                        }
                    }
                    Out::Err(e) => Out::Err(e),
                    Out::Panic(e) => Out::Panic(e),
                };
                self.pool_rec(inv, r, K::Pop);
            }
            Op::Len => {
                let inv = os::event();
                let r = self.rt.block_on(async {
                    let g = pool.read().await;
                    wait(hold);
                    attempt(|| Ok::<_, ()>((g.len(), g.is_empty(), g.transactions_iter().count())))
                });
                if let Out::Ok((l, e, n)) = &r {
                    if (*l == 0) != *e || l != n {
                        self.bad("pool-size", format!("len {l}, is_empty {e}, iterated {n}"));
                    }
                }
                self.pool_rec(inv, r, |x| K::Len(x.0 as u64));
            }
            Op::Contains { item: i } => {
                let i = item(*i);
                let h = w().items[i as usize].1;
                let inv = os::event();
                let r = self.rt.block_on(async {
                    let g = pool.read().await;
                    wait(hold);
                    attempt(|| Ok::<_, ()>(g.transaction_exists(&h)))
                });
                self.pool_rec(inv, r, |found| K::Has { i, found });
            }
            _ => {
                let inv = os::event();
                let r = self.rt.block_on(async {
                    let g = pool.read().await;
                    attempt(|| Ok::<_, ()>(g.transactions_iter().map(|t| t.hash()).collect::<Vec<H>>()))
                });
                if let Out::Ok(v) = &r {
                    let s: BTreeSet<u16> = v.iter().filter_map(|h| w().items.iter().position(|x| x.1 == *h).map(|i| i as u16)).collect();
                    if s.len() != v.len() {
                        self.bad("pool-duplicate", format!("the pool iterates over {} items, {} distinct known ones", v.len(), s.len()));
                    }
                    let _ = c;
                    self.pool_rec(inv, Out::Ok(s), K::Content);
                }
            }
        }
    }
    fn pool_rec<R>(&self, inv: u64, r: Out<R>, k: impl FnOnce(R) -> K) {
        let resp = os::event();
        match r {
            Out::Ok(x) => {
                let op = k(x);
                os::note(|| format!("client {} [{inv},{resp}] {op:?}", self.c));
                w().hist.push(Rec { c: self.c, ev: Ev { inv, resp, op } });
            }
            o => self.bad("pool-panic", o.why()),
        }
    }
    fn funds(&self, a: u8) -> U256 {
        let s = self.sh.sum.as_ref().unwrap();
        let r = rec(
            self.c,
            || attempt(|| s.get_funds(&addr(a))),
            |r| match r {
                Out::Ok(v) => U256::from_dec_str(&v.to_string()).ok().map(|v| K::Funds { a, v }),
                _ => None,
            },
        );
        match r {
            Out::Ok(v) => match U256::from_dec_str(&v.to_string()) {
                Ok(v) => v,
                Err(_) => {
                    self.bad("read-failed", format!("funds of {a} are {v}"));
                    U256::zero()
                }
            },
            o => {
                self.bad("read-failed", format!("funds of {a}: {}", o.why()));
                U256::zero()
            }
        }
    }
    fn exec(&self, op: &Op) {
        let hold = (os::sim().events % 3) * (self.c as u64 & 1);
        match op {
            Op::Yield { n } => {
                for _ in 0..*n {
                    os::yield_now();
                }
            }
            Op::Sleep { ms } => os::sleep_ns(*ms as u64 * 1_000_000),
            Op::AddBlock { fit, ntx, salt } => self.submit_block(*fit, *ntx, *salt),
            Op::ReadHeight => {
                self.height();
            }
            Op::ReadLast => {
                self.read_last();
            }
            Op::ReadAt { back } => {
                let h = self.height();
                self.read_at((h + 1).saturating_sub(*back as u64));
            }
            Op::ReadHash { back } => {
                let n = w().blocks.len();
                if n > 0 {
                    self.read_hash((n - 1).saturating_sub(*back as usize));
                }
            }
            Op::Add { gas, a, v } => {
                let (gas, a) = (*gas, *a);
                let x = self.amt(v, gas, a, a);
                self.ledger(format!("add {a} {x}"), |n| if gas { n.add_gas(&addr(a), x) } else { n.add_amount(&addr(a), x) }, |ok| K::Add { gas, a, x, ok });
            }
            Op::Sub { gas, a, v } => {
                let (gas, a) = (*gas, *a);
                let x = self.amt(v, gas, a, a);
                self.ledger(format!("sub {a} {x}"), |n| if gas { n.sub_gas(&addr(a), x) } else { n.sub_amount(&addr(a), x) }, |ok| K::Sub { gas, a, x, ok });
            }
            Op::Set { a, v } => {
                let a = *a;
                let x = self.amt(v, false, a, a);
                let n = self.sh.node.as_ref().unwrap();
                let r = rec(self.c, || attempt(|| n.set_amount(&addr(a), x)), |_| Some(K::Set { a, x }));
                if !r.is_ok() {
                    self.bad("set-failed", r.why());
                }
            }
            Op::Send { gas, from, to, v } => {
                let (gas, from, to) = (*gas, *from, *to);
                let x = self.amt(v, gas, from, to);
                self.ledger(
                    format!("send {from}->{to} {x}"),
                    |n| if gas { n.send_gas(&addr(from), &addr(to), x) } else { n.send_amount(&addr(from), &addr(to), x) },
                    |ok| K::Send { gas, from, to, x, ok },
                );
            }
            Op::Balance { gas, a } => {
                self.get(*gas, *a);
            }
            Op::Tx { from, to, v, salt, data } => {
                let x = resolve(v, U256::zero(), U256::zero());
                let i = self.tx_index(make_tx(*from, *to, x, *salt, *data), *from, *to, x);
                self.submit_tx(i);
            }
            Op::ReTx { idx } => {
                let n = w().txs.len();
                if n > 0 {
                    self.submit_tx(*idx as usize % n);
                }
            }
            Op::TxExists { idx } => {
                let n = w().txs.len();
                if n > 0 {
                    let i = *idx as usize % n;
                    let h = w().txs[i].1;
                    let m = self.sh.main.as_ref().unwrap();
                    rec(self.c, || attempt(|| m.transaction_exists(&h)), |r| match r {
                        Out::Ok(f) => Some(K::Exists { i, found: *f }),
                        _ => None,
                    });
                }
            }
            Op::Flush => self.flush(false),
            Op::FlushMain => self.flush(true),
            Op::Noise { kind, salt } => self.noise(*kind, *salt),
            Op::Abandon { what, polls, hold } => self.abandoned(what, *polls, *hold),
            Op::Push { .. } | Op::Pop | Op::Len | Op::Contains { .. } => self.pool_op(op, hold),
            Op::AddFunds { a, v } => {
                let a = *a;
                let x = self.sum_amt(v, a);
                let s = self.sh.sum.clone().unwrap();
                let r = rec(self.c, || attempt(|| self.rt.block_on(s.add_funds(&addr(a), &x))), |r| Some(K::Fund { a, x, ok: r.is_ok() }));
                self.sum_seen("credit", &r);
            }
            Op::DecFunds { a, v } => {
                let a = *a;
                let x = self.sum_amt(v, a);
                let s = self.sh.sum.clone().unwrap();
                let r = rec(self.c, || attempt(|| self.rt.block_on(s.decrease_funds(&addr(a), &x))), |r| Some(K::Unfund { a, x, ok: r.is_ok() }));
                self.sum_seen("debit", &r);
            }
            Op::GetFunds { a } => {
                self.funds(*a);
            }
            _ => {}
        }
    }
    fn sum_amt(&self, v: &Amt, a: u8) -> U256 {
        let b = match v {
            Amt::Bal | Amt::BalPlus1 | Amt::BalMinus1 | Amt::Half | Amt::Over(_) | Amt::Under(_) | Amt::Room | Amt::RoomPlus1 => self.funds(a),
            _ => U256::zero(),
        };
        resolve(v, b, b)
    }
    fn sum_seen(&self, what: &str, r: &Out<()>) {
        if r.is_panic() {
            self.bad("summary-panic", format!("{what}: {}", r.why()));
        }
        probe(if r.is_ok() { "funds_changed" } else { "funds_refused" });
    }
}
fn pool_item(i: u16) -> blockchaintree::transaction::TransactionableItem {
    Box::new(item_tx(i, w().items[i as usize].0))
}
fn item_tx(i: u16, ts: u64) -> Transaction {
    Transaction::new_signed(addr((i % 5) as u8), addr(1), ts, U256::from(i), None, [i as u8; 64])
}

// ---------------------------------------------------------------- the run
struct Run {
    sh: Sh,
    rt: Option<tokio::runtime::Runtime>,
    bpe_prop: String,
    /// state at the last point known to be durable, and accepted updates since
    base_c: Bal,
    base_g: Bal,
    since: Vec<Ev<K>>,
    flushes: Vec<(u64, u64)>,
    chain: Vec<usize>,
    chain_wm: usize,
    present: BTreeSet<usize>,
    tx_wm: BTreeSet<usize>,
    sum_base: BTreeMap<u8, U256>,
    pool: BTreeSet<u16>,
    pending: Option<CrashSpec>,
    fatal: bool,
    opened: bool,
    noisy: bool,
}

pub fn run(plan: &Plan) {
    os::mount(DISK);
    let mode = MODES[plan.param("mode", 0) as usize % MODES.len()];
    let mut r = Run {
        sh: Sh { mode, node: None, main: None, dch: None, pool: None, sum: None },
        rt: Some(rt()),
        bpe_prop: plan.prop.clone(),
        base_c: Bal::new(),
        base_g: Bal::new(),
        since: vec![],
        flushes: vec![],
        chain: vec![],
        chain_wm: 0,
        present: BTreeSet::new(),
        tx_wm: BTreeSet::new(),
        sum_base: BTreeMap::new(),
        pool: BTreeSet::new(),
        pending: None,
        fatal: false,
        opened: false,
        noisy: plan.param("noise", 0) == 1,
    };
    if mode == Mode::Pool {
        let mut g = Rng::new(plan.seed, 55);
        let n = plan.param("items", 6);
        for i in 0..n {
            let ts = if n > 9 && g.pct(60) {
                // a large pool: mostly different timestamps, of every magnitude
                1 + (g.next() >> g.range(0, 60))
            } else {
                *g.pick(&[0, 1, 5, 5, 5, 6, 7, 255, 256, 1 << 33, u64::MAX - 1, u64::MAX])
            };
            let t = item_tx(i as u16, ts);
            w().items.push((ts, sha(&[&t.dump().unwrap()])));
        }
    }
    r.open();
    let fill = plan.param("fill", 0);
    if fill > 0 {
        let mut g = Rng::new(plan.seed, 56);
        let ops: Vec<Op> = (0..fill)
            .map(|_| match g.below(20) {
                0 => Op::Pop,
                1 => Op::Len,
                _ => Op::Push { item: g.below(w().items.len() as u64) as u16 },
            })
            .collect();
        r.pool_alone(ops, "filling");
    }
    let rounds: BTreeSet<u8> = plan.steps.iter().map(|s| s.c / 16).collect();
    for k in rounds {
        if r.fatal || violated() {
            break;
        }
        r.round(plan, k);
    }
    if mode == Mode::Pool && !r.fatal && !violated() {
        // everything comes out, earliest first, then nothing
        let mut g = Rng::new(plan.seed, 57);
        let n = w().items.len() as u64;
        let mut left = r.pool.len() as u64;
        let mut ops = vec![];
        if left > 8 {
            // with questions in between, and transactions that come back
            for _ in 0..left {
                ops.push(match g.below(16) {
                    0 | 1 => Op::Len,
                    2 | 3 => Op::Contains { item: g.below(n) as u16 },
                    4 => {
                        left += 1;
                        Op::Push { item: g.below(n) as u16 }
                    }
                    _ => {
                        left -= 1;
                        Op::Pop
                    }
                });
            }
        }
        ops.extend(vec![Op::Pop; left as usize + 1]);
        ops.push(Op::Len);
        r.pool_alone(ops, "draining");
    }
    r.close();
    if let Some(rt) = r.rt.take() {
        drop(rt);
    }
}

impl Run {
    fn die(&mut self, props: &[&str], class: &str, d: String) {
        violate(props, class, d);
        self.fatal = true;
    }
    fn me(&self) -> Client {
        Client { c: MAIN_THREAD, sh: self.sh.clone(), rt: rt() }
    }
    fn close(&mut self) {
        self.sh.dch = None;
        self.sh.main = None;
        self.sh.node = None;
        self.sh.sum = None;
    }
    fn open(&mut self) {
        match self.sh.mode {
            Mode::Pool => {
                if self.sh.pool.is_none() {
                    self.sh.pool = Some(Arc::new(tokio::sync::RwLock::new(TxPool::new())));
                }
                return;
            }
            Mode::Sum => {
                match attempt(|| blockchaintree::tools::open_db(SUMDIR)) {
                    Out::Ok(db) => self.sh.sum = Some(Arc::new(SummaryDB::new(db))),
                    o => {
                        self.die(&["C15"], "summary-open", format!("opening the summary store: {}", o.why()));
                        return;
                    }
                }
                if !self.opened {
                    self.opened = true;
                }
                return;
            }
            _ => {}
        }
        let mut n = match attempt(|| BlockChainTree::new(DIR)) {
            Out::Ok(n) => n,
            o => {
                let t: &[&str] = if self.opened { &["C02", "C01"] } else { &["C02", "C17"] };
                self.die(t, "reopen", format!("opening: {}", o.why()));
                return;
            }
        };
        self.sh.main = Some(n.get_main_chain());
        if self.sh.mode == Mode::Deriv || self.noisy {
            match attempt(|| n.get_derivative_chain(&addr(OWNER))) {
                Out::Ok(c) => self.sh.dch = Some(c),
                o => {
                    self.die(&["C04"], "deriv-open", o.why());
                    return;
                }
            }
        }
        self.sh.node = Some(Arc::new(n));
        if !self.opened {
            self.opened = true;
            if self.sh.mode == Mode::Chain {
                let d = attempt(|| self.sh.main.as_ref().unwrap().get_last_raw_block()).ok().flatten();
                let b = attempt(|| self.sh.main.as_ref().unwrap().get_last_block()).ok().flatten();
                match (d, b) {
                    (Some(_), Some(b)) => {
                        w().blocks.push(blk_of(&*b, false));
                        w().carried.push(vec![]);
                        self.chain = vec![0];
                    }
                    _ => {
                        self.die(&["C02", "C03"], "no-genesis", "a new node has no genesis block".into());
                        return;
                    }
                }
            }
            if let Some((c, g)) = self.balances() {
                self.base_c = c;
                self.base_g = g;
            }
        }
    }
    fn balances(&mut self) -> Option<(Bal, Bal)> {
        let n = self.sh.node.clone().unwrap();
        let mut out = (Bal::new(), Bal::new());
        for a in 0..NADDR as u8 {
            match (attempt(|| n.get_amount(&addr(a))), attempt(|| n.get_gas(&addr(a)))) {
                (Out::Ok(c), Out::Ok(g)) => {
                    out.0.insert(a, c);
                    out.1.insert(a, g);
                }
                (c, g) => {
                    let d = format!("balances of {a}: coins {} gas {}", c.why(), g.why());
                    self.die(&["C01", "C02", "C07"], "balance-unreadable", d);
                    return None;
                }
            }
        }
        Some(out)
    }
    fn round(&mut self, plan: &Plan, k: u8) {
        let steps: Vec<&Step> = plan.steps.iter().filter(|s| s.c / 16 == k).collect();
        ctx().ops_done += steps.len() as u64;
        // what the main thread does first
        for s in steps.iter().filter(|s| s.c % 16 == MAIN_THREAD) {
            match &s.op {
                Op::Crash(c) => self.pending = Some(c.clone()),
                Op::Flush => self.quiet_flush(),
                Op::Restart => self.restart(),
                o if self.pending.is_none() => {
                    self.me().exec(o);
                }
                _ => {}
            }
            if self.fatal || violated() {
                return;
            }
        }
        let start_hist = 0;
        let funding: Vec<Rec> = std::mem::take(&mut w().hist);
        let init = self.state_before(&funding);
        let Some(init) = init else { return };
        if let Some(c) = &self.pending {
            if let Some(n) = c.after {
                os::arm_crash(DISK, n.max(1), c.mode, c.seed, c.before);
            }
        }
        // the clients
        let ids: BTreeSet<u8> = steps.iter().map(|s| s.c % 16).filter(|c| *c != MAIN_THREAD).collect();
        let multi = self.sh.mode == Mode::Pool && plan.param("tasks", 0) == 1;
        let mut handles = vec![];
        let mut tasks = vec![];
        let trt = if multi { Some(tokio::runtime::Builder::new_multi_thread().worker_threads(2).max_blocking_threads(1).build().unwrap()) } else { None };
        for c in ids {
            let ops: Vec<Op> = steps.iter().filter(|s| s.c % 16 == c).map(|s| s.op.clone()).collect();
            let sh = self.sh.clone();
            if let Some(t) = &trt {
                tasks.push(t.spawn(pool_task(c, sh, ops)));
                continue;
            }
            handles.push(std::thread::spawn(move || {
                let cl = Client { c, sh, rt: rt() };
                for o in &ops {
                    os::point(700);
                    cl.exec(o);
                    if violated() {
                        break;
                    }
                }
            }));
        }
        if let Some(t) = trt {
            t.block_on(async {
                for h in tasks {
                    if let Err(e) = h.await {
                        violate(&["C14"], "pool-panic", e.to_string());
                    }
                }
            });
            drop(t);
        }
        for h in handles {
            if h.join().is_err() {
                violate(tags(self.sh.mode), "client-panic", ctx().panics.join("; "));
            }
        }
        os::progress();
        if violated() {
            return;
        }
        let _ = start_hist;
        self.after_round(init, k);
        if self.fatal || violated() {
            return;
        }
        if self.pending.is_some() || os::crashed(DISK) {
            self.crash();
        }
    }

    /// the observed state before a round
    fn state_before(&mut self, funding: &[Rec]) -> Option<State> {
        match self.sh.mode {
            Mode::Chain | Mode::Deriv => {
                self.read_chain()?;
                Some(State { chain: self.chain.clone(), ..Default::default() })
            }
            Mode::Ledger | Mode::Submit => {
                let (c, g) = self.balances()?;
                for r in funding {
                    let ok = matches!(r.ev.op, K::Add { ok: true, .. } | K::Send { ok: true, .. } | K::Sub { ok: true, .. } | K::Set { .. } | K::Tx { ok: true, .. });
                    if ok {
                        self.since.push(r.ev.clone());
                    }
                    if let K::Tx { i, ok: true } = r.ev.op {
                        self.present.insert(i);
                    }
                }
                Some(State { coins: vecof(&c), gas: vecof(&g), present: self.present.clone(), ..Default::default() })
            }
            Mode::Pool => Some(State { pool: self.pool.clone(), ..Default::default() }),
            Mode::Sum => {
                let me = self.me();
                let mut m = BTreeMap::new();
                for a in 0..NADDR as u8 {
                    m.insert(a, me.funds(a));
                }
                let fund: Vec<Rec> = funding.to_vec();
                for r in fund {
                    if matches!(r.ev.op, K::Fund { ok: true, .. } | K::Unfund { ok: true, .. }) {
                        self.since.push(r.ev);
                    }
                }
                w().hist.clear();
                if violated() {
                    return None;
                }
                Some(State { funds: m, ..Default::default() })
            }
        }
    }

    fn after_round(&mut self, init: State, k: u8) {
        // the quiescent state, as reads at the end of the history
        let me = self.me();
        let mode = self.sh.mode;
        match mode {
            Mode::Chain | Mode::Deriv => {
                let Some(ids) = self.read_chain() else { return };
                w().hist.push(end(K::Height(ids.len() as u64)));
                for (h, id) in ids.iter().enumerate() {
                    w().hist.push(end(K::At { h: h as u64, id: Some(*id) }));
                }
                if mode == Mode::Chain {
                    self.check_carried(&ids);
                }
            }
            Mode::Ledger | Mode::Submit => {
                for a in 0..NADDR as u8 {
                    me.get(false, a);
                    me.get(true, a);
                }
            }
            Mode::Pool => {
                me.pool_op(&Op::ReadLast, 0);
                me.pool_op(&Op::Len, 0);
            }
            Mode::Sum => {
                for a in 0..NADDR as u8 {
                    me.funds(a);
                }
            }
        }
        if violated() || self.fatal {
            return;
        }
        let h: Vec<Rec> = std::mem::take(&mut w().hist);
        hist(|| {
            let v: Vec<String> = h.iter().map(|r| format!("{}:{:?}", r.c, r.ev.op)).collect();
            format!("round {k}: {}", v.join(" "))
        });
        // overlapping calls: what makes the round more than a sequence
        let overlaps = h.iter().enumerate().map(|(i, a)| h[..i].iter().filter(|b| a.c != b.c && a.ev.inv < b.ev.resp && b.ev.inv < a.ev.resp).count()).sum::<usize>();
        if overlaps > 0 {
            probe("round_with_overlapping_calls");
        }
        let evs: Vec<Ev<K>> = h.iter().map(|r| r.ev.clone()).collect();
        for e in &evs {
            if let K::Flush { ok: true } = e.op {
                self.flushes.push((e.inv, e.resp));
            }
        }
        let lin = |name: &str, sel: Vec<Ev<K>>, step: &dyn Fn(&State, &K) -> Vec<State>| -> bool {
            if sel.len() > 128 {
                probe("history_too_long");
                return true;
            }
            match linearizable(&init, &sel, step, 300_000 / (1 + init.pool.len() / 10)) {
                Verdict::Yes => {
                    probe("linearizable");
                    true
                }
                Verdict::Gave => {
                    probe("linearizability_undecided");
                    true
                }
                Verdict::No => {
                    os::note(|| format!("no sequential order explains the {name} history of round {k} from {}", init.show()));
                    false
                }
            }
        };
        let pick = |f: &dyn Fn(&K) -> bool| -> Vec<Ev<K>> { evs.iter().filter(|e| f(&e.op)).cloned().collect() };
        match mode {
            Mode::Chain | Mode::Deriv => {
                // the height order of accepted blocks first: a clear message
                let mut at: BTreeMap<u64, usize> = BTreeMap::new();
                for e in &evs {
                    if let K::Submit { id, at: h, ok: true } = e.op {
                        if let Some(o) = at.insert(h, id) {
                            self.die(tags(mode), "two-accepted", format!("blocks {o} and {id} were both accepted at height {h}"));
                            return;
                        }
                    }
                }
                let sel = pick(&|k| !matches!(k, K::Flush { .. }));
                if !lin("chain", sel, &step_chain) {
                    self.die(tags(mode), "not-linearizable", format!("round {k}: {}", brief(&h)));
                    return;
                }
                for e in &evs {
                    if matches!(e.op, K::Submit { ok: true, .. }) {
                        self.since.push(e.clone());
                    }
                }
            }
            Mode::Ledger => {
                for gas in [false, true] {
                    let sel = pick(&|k| matches!(k, K::Add { gas: g, .. } | K::Sub { gas: g, .. } | K::Send { gas: g, .. } | K::Get { gas: g, .. } if *g == gas) || (!gas && matches!(k, K::Set { .. })));
                    if !lin(led(gas), sel, &step_ledger) {
                        let mut t = vec!["C07"];
                        // a transfer that changed the total
                        if self.total_moved(&evs, &init, gas) {
                            t.push("C06");
                        }
                        self.die(&t, "not-linearizable", format!("{} ledger, round {k} from {}: {}", led(gas), init.show(), brief(&h)));
                        return;
                    }
                }
                for e in &evs {
                    if matches!(e.op, K::Add { ok: true, .. } | K::Sub { ok: true, .. } | K::Send { ok: true, .. } | K::Set { .. }) {
                        self.since.push(e.clone());
                    }
                }
            }
            Mode::Submit => {
                // one transaction accepted twice: a clear message
                let mut oks: BTreeSet<usize> = self.present.clone();
                for e in &evs {
                    if let K::Tx { i, ok: true } = e.op {
                        if !oks.insert(i) {
                            self.die(&["C09", "C08"], "applied-twice", format!("transaction {i} was accepted twice"));
                            return;
                        }
                    }
                }
                let last = self.w_last_get(&evs);
                let sel: Vec<Ev<K>> = evs
                    .iter()
                    .filter(|e| match &e.op {
                        K::Tx { .. } | K::Add { .. } | K::Send { .. } | K::Sub { .. } => true,
                        K::Get { .. } => e.inv >= last,
                        _ => false,
                    })
                    .cloned()
                    .collect();
                let fee = self.fee();
                if !lin("submission", sel, &|s, k| step_submit(s, k, fee)) {
                    let mut t = vec!["C08"];
                    let dup = evs.iter().filter_map(|e| if let K::Tx { i, .. } = e.op { Some(i) } else { None });
                    let dup: Vec<usize> = dup.collect();
                    let set: BTreeSet<usize> = dup.iter().copied().collect();
                    if set.len() < dup.len() || dup.iter().any(|i| self.present.contains(i)) || set.len() > 1 {
                        t.push("C09");
                    }
                    self.die(&t, "not-linearizable", format!("round {k} from {}: {}", init.show(), brief(&h)));
                    return;
                }
                // records
                let before = self.present.clone();
                for e in &evs {
                    if let K::Exists { i, found } = e.op {
                        let started = before.contains(&i) || evs.iter().any(|x| matches!(x.op, K::Tx { i: j, .. } if j == i) && x.inv < e.resp);
                        let done = before.contains(&i) || evs.iter().any(|x| matches!(x.op, K::Tx { i: j, ok: true } if j == i) && x.resp < e.inv);
                        if (found && !started) || (!found && done) {
                            self.die(&["C08", "C09"], "tx-record", format!("transaction {i}: stored {found}, submitted before {started}, accepted before {done}"));
                            return;
                        }
                    }
                }
                self.present = oks;
                let m = self.sh.main.clone().unwrap();
                for i in 0..w().txs.len() {
                    let (h, d) = (w().txs[i].1, w().txs[i].2.clone());
                    let got = attempt(|| m.get_transaction_raw(&h)).ok().flatten();
                    let want = self.present.contains(&i);
                    if got.is_some() != want || (want && got.as_deref() != Some(&d[..])) {
                        self.die(&["C08"], "tx-record", format!("transaction {i}: stored {}, accepted {want}", got.is_some()));
                        return;
                    }
                }
                for e in &evs {
                    if matches!(e.op, K::Add { ok: true, .. } | K::Sub { ok: true, .. } | K::Send { ok: true, .. } | K::Tx { ok: true, .. }) {
                        self.since.push(e.clone());
                    }
                }
            }
            Mode::Pool => {
                if !lin("pool", pick(&|_| true), &step_pool) {
                    self.die(&["C14"], "not-linearizable", format!("round {k} from {:?}, items {:?}: {}", init.pool, w().items.iter().map(|x| x.0).collect::<Vec<_>>(), brief(&h)));
                    return;
                }
                if let Some(K::Content(s)) = evs.iter().rev().map(|e| &e.op).find(|k| matches!(k, K::Content(_))) {
                    self.pool = s.clone();
                }
            }
            Mode::Sum => {
                for a in 0..NADDR as u8 {
                    let sel = pick(&|k| matches!(k, K::Fund { a: b, .. } | K::Unfund { a: b, .. } | K::Funds { a: b, .. } if *b == a));
                    if !lin("summary", sel, &step_sum) {
                        self.die(&["C15"], "not-linearizable", format!("address {a}, round {k} from {}: {}", init.show(), brief(&h)));
                        return;
                    }
                }
                for e in &evs {
                    if matches!(e.op, K::Fund { ok: true, .. } | K::Unfund { ok: true, .. }) {
                        self.since.push(e.clone());
                    }
                }
            }
        }
    }
    fn w_last_get(&self, evs: &[Ev<K>]) -> u64 {
        evs.iter().filter(|e| !matches!(e.op, K::Get { .. })).map(|e| e.resp).max().unwrap_or(0)
    }
    fn fee(&self) -> U256 {
        // the chain is at genesis in these runs
        *FEE_STEP * U256::from(lz(&EASIEST))
    }
    fn total_moved(&self, evs: &[Ev<K>], init: &State, gas: bool) -> bool {
        let only_sends = evs.iter().all(|e| !matches!(e.op, K::Add { gas: g, ok: true, .. } | K::Sub { gas: g, ok: true, .. } if g == gas) && !matches!(e.op, K::Set { .. }));
        if !only_sends {
            return false;
        }
        let before: Vec<U256> = if gas { init.gas.clone() } else { init.coins.clone() };
        let mut after = before.clone();
        for e in evs {
            if let K::Get { gas: g, a, v } = e.op {
                if g == gas {
                    after[a as usize] = v;
                }
            }
        }
        let sum = |v: &[U256]| v.iter().fold(primitive_types::U512::zero(), |s, x| s + *x);
        sum(&before) != sum(&after)
    }

    /// ids of the blocks of the shared chain, read at rest
    fn read_chain(&mut self) -> Option<Vec<usize>> {
        let t: &'static [&'static str] = tags(self.sh.mode);
        let me = self.me();
        let n = match self.sh.mode {
            Mode::Chain => self.sh.main.as_ref().unwrap().get_height(),
            _ => self.sh.dch.as_ref().unwrap().get_height(),
        };
        if n > U256::from(1000) {
            self.die(t, "height-absurd", format!("{n}"));
            return None;
        }
        let mut v = vec![];
        for h in 0..n.as_u64() {
            match me.raw_at(h) {
                Out::Ok(Some(d)) => match block_id(&d) {
                    Some(i) => v.push(i),
                    None => {
                        self.die(t, "unknown-block", format!("height {h} holds a block nobody submitted"));
                        return None;
                    }
                },
                o => {
                    let y = if let Out::Ok(_) = o { "none".into() } else { o.why() };
                    self.die(t, "hole-in-chain", format!("height is {n} but block {h} reads as {y}"));
                    return None;
                }
            }
        }
        self.chain = v.clone();
        Some(v)
    }
    /// transactions of accepted blocks are stored, those of refused blocks are not
    fn check_carried(&mut self, ids: &[usize]) {
        let m = self.sh.main.clone().unwrap();
        let want: BTreeSet<H> = ids.iter().flat_map(|i| w().carried[*i].clone()).collect();
        let all: BTreeSet<H> = w().carried.iter().flatten().copied().collect();
        for h in all.difference(&w().tx_doubt).copied().collect::<Vec<_>>() {
            let ex = attempt(|| m.transaction_exists(&h)).ok();
            if ex != Some(want.contains(&h)) {
                self.die(&["C05"], "refused-block-took-effect", format!("transaction {} of {} block: stored {ex:?}", hex8(&h), if want.contains(&h) { "an accepted" } else { "a refused" }));
                return;
            }
        }
    }

    /// one caller, one call after the other
    fn pool_alone(&mut self, ops: Vec<Op>, what: &str) {
        let me = self.me();
        let mut st = State { pool: self.pool.clone(), ..Default::default() };
        for (n, o) in ops.iter().enumerate() {
            me.pool_op(o, 0);
            if violated() {
                return;
            }
            for r in std::mem::take(&mut w().hist) {
                hist(|| format!("{what}: {:?}", r.ev.op));
                match step_pool(&st, &r.ev.op).into_iter().next() {
                    Some(t) => st = t,
                    None => {
                        let d = format!("{what}, call {n} of one caller alone: {:?} on a pool of {:?} with timestamps {:?}", r.ev.op, st.pool, st.pool.iter().map(|i| w().items[*i as usize].0).collect::<Vec<_>>());
                        self.die(&["C14"], "not-a-queue", d);
                        return;
                    }
                }
            }
        }
        os::progress();
        probe(if what == "filling" { "large_pool_filled" } else { "pool_drained" });
        self.pool = st.pool;
    }

    fn quiet_flush(&mut self) {
        let r = match self.sh.mode {
            Mode::Deriv => attempt(|| self.rt.as_ref().unwrap().block_on(self.sh.dch.as_ref().unwrap().flush())),
            Mode::Sum => attempt(|| self.rt.as_ref().unwrap().block_on(self.sh.sum.as_ref().unwrap().flush())),
            Mode::Pool => return,
            _ => attempt(|| self.rt.as_ref().unwrap().block_on(self.sh.node.as_ref().unwrap().flush())),
        };
        if !r.is_ok() {
            self.die(&["C01", "C18"], "flush-failed", r.why());
            return;
        }
        self.rebase();
    }
    /// everything there is now is durable
    fn rebase(&mut self) {
        self.since.clear();
        self.flushes.clear();
        match self.sh.mode {
            Mode::Chain | Mode::Deriv => {
                if self.read_chain().is_some() {
                    self.chain_wm = self.chain.len();
                }
            }
            Mode::Ledger | Mode::Submit => {
                if let Some((c, g)) = self.balances() {
                    self.base_c = c;
                    self.base_g = g;
                }
                self.tx_wm = self.present.clone();
                for r in std::mem::take(&mut w().hist) {
                    if let K::Tx { i, ok: true } = r.ev.op {
                        self.present.insert(i);
                        self.tx_wm.insert(i);
                    }
                }
            }
            Mode::Sum => {
                let me = self.me();
                for a in 0..NADDR as u8 {
                    self.sum_base.insert(a, me.funds(a));
                }
                w().hist.clear();
            }
            Mode::Pool => {}
        }
    }
    fn restart(&mut self) {
        if self.sh.mode == Mode::Pool {
            return;
        }
        self.quiet_flush();
        if self.fatal {
            return;
        }
        let chain = self.chain.clone();
        let before = if matches!(self.sh.mode, Mode::Sum) { None } else { self.balances() };
        self.close();
        self.open();
        if self.fatal {
            return;
        }
        probe("restart");
        hist(|| "restart".into());
        match self.sh.mode {
            Mode::Chain | Mode::Deriv => {
                if self.read_chain().is_some() && self.chain != chain {
                    self.die(&["C01", "C03", "C04"], "restart-changed-chain", format!("{chain:?} became {:?}", self.chain));
                }
            }
            Mode::Sum => {
                let me = self.me();
                for a in 0..NADDR as u8 {
                    if me.funds(a) != self.sum_base[&a] {
                        self.die(&["C15"], "restart-changed-funds", format!("address {a}"));
                        return;
                    }
                }
                w().hist.clear();
            }
            _ => {
                let after = self.balances();
                if let (Some(b), Some(a)) = (before, after) {
                    if !same_balances(&b.0, &a.0) || !same_balances(&b.1, &a.1) {
                        self.die(&["C17", "C01"], "restart-moved-balances", format!("{} {} became {} {}", show(&b.0), show(&b.1), show(&a.0), show(&a.1)));
                    }
                }
            }
        }
    }

    fn crash(&mut self) {
        let c = self.pending.take();
        os::disarm_crash(DISK);
        if !os::crashed(DISK) {
            let (m, s) = c.map(|c| (c.mode, c.seed)).unwrap_or((CrashMode::Power, 1));
            os::crash_now(DISK, m, s);
            os::count_fault(match m {
                CrashMode::Kill => "crash_between_ops:process_kill",
                CrashMode::Power => "crash_between_ops:power_loss",
            });
        } else {
            probe("crash_while_clients_run");
        }
        let at = os::disk(DISK).crash_event;
        let op = os::disk(DISK).crash_op.clone();
        hist(|| format!("crash at event {at}: {op}"));
        let old_chain = self.chain.clone();
        self.close();
        os::remount_after_crash(DISK);
        self.open();
        if self.fatal {
            return;
        }
        // the last flush that began and returned before the crash
        let fl = self.flushes.iter().filter(|f| f.1 <= at).map(|f| f.0).max().unwrap_or(0);
        if fl > 0 {
            probe("crash_after_concurrent_flush");
        }
        match self.sh.mode {
            Mode::Chain | Mode::Deriv => {
                let deriv = self.sh.mode == Mode::Deriv;
                let must = self.since.iter().filter(|e| e.resp < fl).filter_map(|e| if let K::Submit { at, .. } = e.op { Some(at as usize + 1) } else { None }).max().unwrap_or(0).max(self.chain_wm);
                let Some(v) = self.read_chain() else { return };
                if v.len() > old_chain.len() || v[..] != old_chain[..v.len()] {
                    let t: &[&str] = if deriv { &["C04"] } else { &["C03", "C01"] };
                    self.die(t, "recovered-chain-differs", format!("{v:?} after the crash, {old_chain:?} before"));
                    return;
                }
                if v.len() < must {
                    let t: &[&str] = if deriv { &["C04"] } else { &["C01"] };
                    self.die(t, "flushed-blocks-lost", format!("{must} blocks had been accepted before a flush began that returned before the crash; height is {}", v.len()));
                    return;
                }
                if !deriv {
                    let m = self.sh.main.clone().unwrap();
                    for e in self.since.clone().iter().filter(|e| e.resp < fl) {
                        if let K::Submit { id, .. } = e.op {
                            for h in w().carried[id].clone() {
                                if attempt(|| m.transaction_exists(&h)).ok() != Some(true) {
                                    self.die(&["C01"], "flushed-tx-lost", format!("transaction {} of block {id}", hex8(&h)));
                                    return;
                                }
                            }
                        }
                    }
                }
                if v.len() < old_chain.len() {
                    probe("blocks_lost_by_crash");
                }
                // what unflushed blocks carried may or may not be stored: no longer checked
                let x = w();
                for c in x.carried.iter_mut() {
                    x.tx_doubt.extend(c.drain(..));
                }
            }
            Mode::Ledger | Mode::Submit => {
                let Some((c, g)) = self.balances() else { return };
                if self.sh.mode == Mode::Submit {
                    let m = self.sh.main.clone().unwrap();
                    let mut now = BTreeSet::new();
                    for i in 0..w().txs.len() {
                        let h = w().txs[i].1;
                        if attempt(|| m.transaction_exists(&h)).ok() == Some(true) {
                            now.insert(i);
                        }
                    }
                    let mut must = self.tx_wm.clone();
                    for e in self.since.iter().filter(|e| e.resp < fl) {
                        if let K::Tx { i, .. } = e.op {
                            must.insert(i);
                        }
                    }
                    if let Some(i) = must.difference(&now).next() {
                        let i = *i;
                        self.die(&["C01", "C09"], "flushed-tx-lost", format!("transaction {i} had been accepted before a flush that returned before the crash"));
                        return;
                    }
                    let old = self.present.clone();
                    if let Some(i) = now.difference(&old).next() {
                        let i = *i;
                        self.die(&["C08", "C19"], "tx-appeared", format!("transaction {i} is stored but was never accepted"));
                        return;
                    }
                    self.present = now;
                }
                for gas in [false, true] {
                    let obs = if gas { vecof(&g) } else { vecof(&c) };
                    let base = if gas { self.base_g.clone() } else { self.base_c.clone() };
                    let mut h: Vec<Ev<K>> = vec![];
                    for e in self.since.iter().filter(|e| e.inv <= at) {
                        let price = |i: usize| *BYTE_GAS_PRICE * U256::from(w().txs[i].2.len());
                        let op = match &e.op {
                            K::Add { gas: x, .. } | K::Sub { gas: x, .. } | K::Send { gas: x, .. } if *x == gas => e.op.clone(),
                            K::Set { .. } if !gas => e.op.clone(),
                            K::Tx { i, .. } if gas => K::Sub { gas, a: w().txs[*i].3, x: price(*i), ok: true },
                            K::Tx { i, .. } => K::Send { gas, from: w().txs[*i].3, to: w().txs[*i].4, x: w().txs[*i].5, ok: true },
                            _ => continue,
                        };
                        h.push(Ev { inv: e.inv, resp: if e.resp > at { u64::MAX } else { e.resp }, op });
                    }
                    h.push(Ev { inv: fl, resp: at.max(fl), op: K::Snap(obs.clone()) });
                    if h.len() > 128 {
                        probe("history_too_long");
                        continue;
                    }
                    let init = if gas { State { gas: vecof(&base), ..Default::default() } } else { State { coins: vecof(&base), ..Default::default() } };
                    let step = |s: &State, k: &K| step_crash(s, k, gas);
                    match linearizable(&init, &h, &step, 300_000) {
                        Verdict::Yes => probe("recovered_state_is_a_prefix"),
                        Verdict::Gave => probe("linearizability_undecided"),
                        Verdict::No => {
                            let mut t = vec!["C06"];
                            // does some balance match no state at all?
                            h.last_mut().unwrap().inv = 0;
                            if linearizable(&init, &h, &step, 300_000) == Verdict::Yes {
                                t.push("C01"); // a prefix, but an older one than what was flushed
                            }
                            let d = format!("{} ledger after the crash is {} from base {}; accepted since: {}; flush began at {fl}, crash at {at}", led(gas), show(if gas { &g } else { &c }), show(&base), h.iter().map(|e| format!("[{},{}]{:?}", e.inv, e.resp, e.op)).collect::<Vec<_>>().join(" "));
                            self.die(&t, "recovered-ledger", d);
                            return;
                        }
                    }
                }
            }
            Mode::Sum => {
                let me = self.me();
                for a in 0..NADDR as u8 {
                    let v = me.funds(a);
                    let mut h: Vec<Ev<K>> = self
                        .since
                        .iter()
                        .filter(|e| e.inv <= at && matches!(e.op, K::Fund { a: b, .. } | K::Unfund { a: b, .. } if b == a))
                        .map(|e| Ev { inv: e.inv, resp: if e.resp > at { u64::MAX } else { e.resp }, op: e.op.clone() })
                        .collect();
                    let acked = h.iter().filter(|e| e.resp != u64::MAX).map(|e| e.resp).max().unwrap_or(0);
                    h.push(Ev { inv: acked + 1, resp: at.max(acked + 1), op: K::Funds { a, v } });
                    let mut init = State::default();
                    init.funds.insert(a, self.sum_base.get(&a).copied().unwrap_or_default());
                    match linearizable(&init, &h, &step_sum, 300_000) {
                        Verdict::Yes => probe("recovered_state_is_a_prefix"),
                        Verdict::Gave => probe("linearizability_undecided"),
                        Verdict::No => {
                            let d = format!("address {a} holds {v} after the crash at {at}, base {}; accepted: {}", self.sum_base.get(&a).copied().unwrap_or_default(), h.iter().map(|e| format!("[{},{}]{:?}", e.inv, e.resp, e.op)).collect::<Vec<_>>().join(" "));
                            self.die(&["C15"], "acknowledged-funds-lost", d);
                            return;
                        }
                    }
                }
                w().hist.clear();
            }
            Mode::Pool => {}
        }
        if self.fatal || violated() {
            return;
        }
        probe("crash_recovered");
        // from here on what was recovered is the base
        self.quiet_flush();
    }
}

fn end(op: K) -> Rec {
    let inv = os::event();
    let resp = os::event();
    Rec { c: MAIN_THREAD, ev: Ev { inv, resp, op } }
}
fn brief(h: &[Rec]) -> String {
    let s: Vec<String> = h.iter().map(|r| format!("c{}[{},{}]{:?}", r.c, r.ev.inv, r.ev.resp, r.ev.op)).collect();
    s.join(" ").chars().take(1500).collect()
}
fn vecof(b: &Bal) -> Vec<U256> {
    (0..NADDR as u8).map(|a| b.get(&a).copied().unwrap_or_default()).collect()
}
async fn pool_task(c: u8, sh: Sh, ops: Vec<Op>) {
    let pool = sh.pool.clone().unwrap();
    let put = |inv: u64, op: K| {
        let resp = os::event();
        os::note(|| format!("task {c} [{inv},{resp}] {op:?}"));
        w().hist.push(Rec { c, ev: Ev { inv, resp, op } });
    };
    let id = |h: &H| w().items.iter().position(|x| x.1 == *h).map(|i| i as u16);
    for o in &ops {
        let n = w().items.len() as u16;
        match o {
            Op::Yield { n } => {
                for _ in 0..*n {
                    tokio::task::yield_now().await;
                }
            }
            Op::Push { item } => {
                let i = item % n;
                let inv = os::event();
                let new = pool.write().await.push(pool_item(i));
                put(inv, K::Push { i, new });
            }
            Op::Pop => {
                let inv = os::event();
                let r = pool.write().await.pop();
                match r {
                    None => put(inv, K::Pop(None)),
                    Some((h, t)) => match id(&h) {
                        Some(i) if t.hash() == h => put(inv, K::Pop(Some(i))),
                        _ => violate(&["C14"], "pool-invented", format!("pop returned {}", hex8(&h))),
                    },
                }
            }
            Op::Len => {
                let inv = os::event();
                let g = pool.read().await;
                tokio::task::yield_now().await;
                let (l, k) = (g.len(), g.transactions_iter().count());
                drop(g);
                if l != k {
                    violate(&["C14"], "pool-size", format!("len {l}, iterated {k}"));
                }
                put(inv, K::Len(l as u64));
            }
            Op::Contains { item } => {
                let i = item % n;
                let inv = os::event();
                let h = w().items[i as usize].1;
                let found = pool.read().await.transaction_exists(&h);
                put(inv, K::Has { i, found });
            }
            _ => {}
        }
        os::point(701);
        if violated() {
            return;
        }
    }
}

// ---------------------------------------------------------------- the sequential models
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
struct State {
    chain: Vec<usize>,
    coins: Vec<U256>,
    gas: Vec<U256>,
    present: BTreeSet<usize>,
    pool: BTreeSet<u16>,
    funds: BTreeMap<u8, U256>,
}
impl State {
    fn show(&self) -> String {
        let f = |v: &[U256]| v.iter().enumerate().filter(|x| !x.1.is_zero()).map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(" ");
        format!("coins {{{}}} gas {{{}}} chain {:?} funds {:?}", f(&self.coins), f(&self.gas), self.chain, self.funds)
    }
}
fn keep(s: &State, ok: bool) -> Vec<State> {
    if ok { vec![s.clone()] } else { vec![] }
}
fn step_chain(s: &State, k: &K) -> Vec<State> {
    let n = s.chain.len() as u64;
    match k {
        K::Submit { id, at, ok } => match (*ok, *at == n) {
            (true, true) => {
                let mut t = s.clone();
                t.chain.push(*id);
                vec![t]
            }
            (false, false) => vec![s.clone()],
            _ => vec![],
        },
        K::Height(h) => keep(s, *h == n),
        K::Last(id) => keep(s, s.chain.last() == id.as_ref()),
        K::At { h, id } => keep(s, s.chain.get(*h as usize) == id.as_ref()),
        K::ByHash { id, found } => keep(s, s.chain.contains(id) == *found),
        _ => vec![s.clone()],
    }
}
fn upd(v: &mut [U256], k: &K) -> Option<bool> {
    let mut b: Bal = v.iter().enumerate().map(|x| (x.0 as u8, *x.1)).collect();
    let r = match k {
        K::Add { a, x, .. } => credit(&mut b, *a, *x),
        K::Sub { a, x, .. } => super::s1::debit(&mut b, *a, *x),
        K::Set { a, x } => {
            b.insert(*a, *x);
            true
        }
        K::Send { from, to, x, .. } => transfer(&mut b, *from, *to, *x),
        _ => return None,
    };
    for (a, x) in b {
        v[a as usize] = x;
    }
    Some(r)
}
fn step_ledger(s: &State, k: &K) -> Vec<State> {
    let (gas, ok) = match k {
        K::Add { gas, ok, .. } | K::Sub { gas, ok, .. } | K::Send { gas, ok, .. } => (*gas, *ok),
        K::Set { .. } => (false, true),
        K::Get { gas, a, v } => return keep(s, (if *gas { &s.gas } else { &s.coins })[*a as usize] == *v),
        _ => return vec![s.clone()],
    };
    let mut t = s.clone();
    let legal = upd(if gas { &mut t.gas } else { &mut t.coins }, k).unwrap();
    match (legal, ok) {
        (true, true) => vec![t],
        (false, false) => vec![s.clone()],
        _ => vec![],
    }
}
fn step_submit(s: &State, k: &K, fee: U256) -> Vec<State> {
    let K::Tx { i, ok } = k else { return step_ledger(s, k) };
    let (_, _, dump, from, to, x) = &w().txs[*i];
    let price = *BYTE_GAS_PRICE * U256::from(dump.len());
    let coins = s.coins[*from as usize];
    let gas = s.gas[*from as usize];
    let room = from == to || s.coins[*to as usize].checked_add(*x).is_some();
    let can = !s.present.contains(i) && coins >= *x && gas >= price && room;
    let must = can && coins.checked_sub(*x).map(|r| r >= fee).unwrap_or(false);
    if *ok {
        if !can {
            return vec![];
        }
        let mut t = s.clone();
        upd(&mut t.coins, &K::Send { gas: false, from: *from, to: *to, x: *x, ok: true });
        upd(&mut t.gas, &K::Sub { gas: true, a: *from, x: price, ok: true });
        t.present.insert(*i);
        vec![t]
    } else {
        keep(s, !must)
    }
}
fn step_crash(s: &State, k: &K, gas: bool) -> Vec<State> {
    if let K::Snap(v) = k {
        return keep(s, (if gas { &s.gas } else { &s.coins }) == v);
    }
    let mut t = s.clone();
    match upd(if gas { &mut t.gas } else { &mut t.coins }, k) {
        Some(true) => vec![t],
        _ => vec![],
    }
}
fn step_pool(s: &State, k: &K) -> Vec<State> {
    let ts = |i: &u16| w().items[*i as usize].0;
    match k {
        K::Push { i, new } => {
            if s.pool.contains(i) == *new {
                return vec![];
            }
            let mut t = s.clone();
            t.pool.insert(*i);
            vec![t]
        }
        K::Pop(None) => keep(s, s.pool.is_empty()),
        K::Pop(Some(i)) => {
            if !s.pool.contains(i) || s.pool.iter().any(|j| ts(j) < ts(i)) {
                return vec![];
            }
            let mut t = s.clone();
            t.pool.remove(i);
            vec![t]
        }
        K::Len(n) => keep(s, s.pool.len() as u64 == *n),
        K::Has { i, found } => keep(s, s.pool.contains(i) == *found),
        K::Content(c) => keep(s, s.pool == *c),
        _ => vec![s.clone()],
    }
}
fn step_sum(s: &State, k: &K) -> Vec<State> {
    let get = |a: &u8| s.funds.get(a).copied().unwrap_or_default();
    match k {
        K::Fund { a, x, ok } => match (get(a).checked_add(*x), *ok) {
            (Some(v), true) => {
                let mut t = s.clone();
                t.funds.insert(*a, v);
                vec![t]
            }
            (None, false) => vec![s.clone()],
            _ => vec![],
        },
        K::Unfund { a, x, ok } => match (get(a).checked_sub(*x), *ok) {
            (Some(v), true) => {
                let mut t = s.clone();
                t.funds.insert(*a, v);
                vec![t]
            }
            (None, false) => vec![s.clone()],
            // an address that holds nothing may be unknown to the store
            (Some(_), false) => keep(s, x.is_zero() && get(a).is_zero()),
            _ => vec![],
        },
        K::Funds { a, v } => keep(s, get(a) == *v),
        _ => vec![s.clone()],
    }
}

// ---------------------------------------------------------------- plans
pub fn generate(p: &mut Plan, r: &mut Rng) {
    let prop = p.prop.clone();
    let mode = match prop.as_str() {
        "C05" => if r.pct(70) { Mode::Chain } else { Mode::Deriv },
        "C03" => Mode::Chain,
        "C04" => Mode::Deriv,
        "C07" | "C06" => Mode::Ledger,
        "C08" | "C09" => Mode::Submit,
        "C14" => Mode::Pool,
        "C15" => Mode::Sum,
        "C01" => *r.pick(&[Mode::Chain, Mode::Ledger, Mode::Submit]),
        "C23" => *r.pick(&[Mode::Chain, Mode::Chain, Mode::Deriv, Mode::Deriv, Mode::Ledger, Mode::Submit, Mode::Pool, Mode::Sum, Mode::Sum]),
        _ => Mode::Chain,
    };
    p.params.insert("mode".into(), MODES.iter().position(|m| *m == mode).unwrap() as u64);
    let crashes = match prop.as_str() {
        "C01" | "C06" | "C04" | "C15" => 85,
        "C03" | "C09" | "C23" => 50,
        _ => 15,
    };
    let crashes = if mode == Mode::Pool { 0 } else { crashes };
    let rounds = if r.pct(50) { 1 } else { r.range(2, 3) };
    let clients = if r.pct(50) { 2 } else { r.range(2, 4) };
    let per = match mode {
        Mode::Pool => r.range(3, 8),
        Mode::Ledger | Mode::Sum => r.range(1, 5),
        _ => r.range(1, 4),
    };
    let crash_round = if r.pct(crashes) { Some(r.below(rounds)) } else { None };
    if mode == Mode::Pool {
        if r.pct(12) {
            if r.pct(10) {
                p.params.insert("items".into(), r.range(500, 1500));
                p.params.insert("fill".into(), *r.pick(&[600, 1000, 2000]));
            } else {
                p.params.insert("items".into(), r.range(20, 250));
                p.params.insert("fill".into(), *r.pick(&[10, 40, 90, 200, 400]));
            }
        } else {
            p.params.insert("items".into(), r.range(2, 9));
        }
        p.params.insert("tasks".into(), r.pct(40) as u64);
    }
    let items = p.params.get("items").copied().unwrap_or(9);
    let naddr = r.range(1, 4);
    // keys that differ in their last byte only
    let twins = matches!(mode, Mode::Ledger | Mode::Sum) && r.pct(15);
    let acc = |r: &mut Rng| if twins { *r.pick(&[2, 5]) } else { r.below(naddr) as u8 + 1 };
    let huge = r.pct(15) && crash_round.is_none();
    // amounts of every magnitude
    let wide = r.pct(30);
    let salts = r.range(1, 6);
    let debits = r.pct(40);
    let gas_debits = !debits && r.pct(50);
    let wflush = if crash_round.is_some() { r.range(1, 3) } else { r.below(2) };
    let noisy = !matches!(mode, Mode::Pool | Mode::Sum) && r.pct(if prop == "C23" { 60 } else { 25 });
    if noisy {
        p.params.insert("noise".into(), 1);
    }
    let quits = prop == "C23" && r.pct(75);
    let wflush = if quits { r.range(4, 8) } else { wflush };
    if quits && r.pct(50) {
        p.knobs.slow_io = *r.pick(&[100_000, 400_000]);
    }
    let mut salt = 0u32;
    let submit_price = 625_000_000_000u64;
    for k in 0..rounds as u8 {
        let main = k * 16 + MAIN_THREAD;
        let mut push = |c: u8, op: Op| p.steps.push(Step { c, op });
        if k > 0 {
            match r.below(5) {
                0 => push(main, Op::Restart),
                1 => push(main, Op::Flush),
                _ => {}
            }
        }
        match mode {
            Mode::Ledger if k == 0 || r.pct(40) => {
                for _ in 0..r.range(1, 3) {
                    let a = acc(r);
                    let v = if huge { *r.pick(&[u64::MAX, 3, 70]) } else { r.range(1, 60) };
                    let v = if huge && v == u64::MAX { Amt::Max } else { Amt::N(v) };
                    let gas = r.pct(40);
                    push(main, Op::Add { gas, a, v });
                }
            }
            Mode::Submit if k == 0 || r.pct(40) => {
                for _ in 0..r.range(1, 3) {
                    let a = acc(r);
                    push(main, Op::Add { gas: false, a, v: Amt::N(62_500 + r.range(0, 120)) });
                    push(main, Op::Add { gas: true, a, v: Amt::N(submit_price * if gas_debits && r.pct(50) { r.range(130, 300) } else { r.range(130, 800) }) });
                }
            }
            _ => {}
        }
        if crash_round == Some(k as u64) {
            let mut c = gen::crash(r, 1);
            if r.pct(20) {
                c.after = None;
            }
            c.reopen.clear();
            push(main, Op::Crash(c));
        }
        // one client spends what another one's submission is about to spend
        let duel = mode == Mode::Submit && debits && crash_round.is_none() && clients > 1 && r.pct(60);
        let duellist = acc(r);
        if duel {
            push(main, Op::Add { gas: false, a: duellist, v: Amt::N(62_500 + r.range(100, 70_000)) });
            push(main, Op::Add { gas: true, a: duellist, v: Amt::N(submit_price * 600) });
        }
        for c in 0..clients as u8 {
            let cid = k * 16 + c;
            let n = r.range(1, per);
            if duel && c == 0 {
                let v = Amt::N(*r.pick(&[20, 90, 50_000, 62_000]));
                let to = if r.pct(85) { naddr as u8 + 1 } else { acc(r) };
                push(cid, Op::Tx { from: duellist, to, v, salt: 1000 + k as u32, data: 0 });
            } else if duel && c == 1 {
                if r.pct(40) {
                    push(cid, Op::Yield { n: r.range(1, 3) as u8 });
                }
                let v = if r.pct(50) { Amt::Bal } else { Amt::N(r.range(40, 63_000)) };
                if r.pct(50) {
                    push(cid, Op::Sub { gas: false, a: duellist, v });
                } else {
                    push(cid, Op::Send { gas: false, from: duellist, to: naddr as u8 + 1, v });
                }
            }
            for _ in 0..n {
                if r.pct(8) {
                    push(cid, Op::Yield { n: r.range(1, 4) as u8 });
                }
                if noisy && r.pct(20) {
                    push(cid, Op::Noise { kind: r.below(6) as u8, salt: r.next() as u32 });
                }
                let quit = |r: &mut Rng, o: Op| {
                    let polls = if r.pct(20) { r.range(1, 40) } else { r.range(1, 14) };
                    Op::Abandon { what: Box::new(o), polls: polls as u8, hold: if r.pct(60) { 0 } else { r.below(6) as u8 } }
                };
                if mode != Mode::Pool && r.below(12) < wflush {
                    let o = if mode == Mode::Chain && r.pct(50) { Op::FlushMain } else { Op::Flush };
                    let o = if quits && r.pct(60) { quit(r, o) } else { o };
                    push(cid, o);
                    continue;
                }
                let a = acc(r);
                let b = acc(r);
                let v = match r.below(if wide { 20 } else { 14 }) {
                    14 | 15 => Amt::Rnd { bits: r.range(1, if crash_round.is_some() { 220 } else { 250 }) as u8, seed: r.next() },
                    16 | 17 => Amt::Over(r.below(250) as u8),
                    18 | 19 => Amt::Under(r.below(250) as u8),
                    0 => Amt::Bal,
                    1 => Amt::BalPlus1,
                    2 => Amt::Half,
                    3 => Amt::Zero,
                    4 if huge => Amt::Max,
                    5 if huge => Amt::Room,
                    6 if huge => Amt::RoomPlus1,
                    _ => Amt::N(r.range(1, 60)),
                };
                let op = match mode {
                    Mode::Chain | Mode::Deriv => match r.below(12) {
                        0..=5 => Op::AddBlock {
                            fit: *r.pick(&[Fit::Next, Fit::Next, Fit::Next, Fit::Next, Fit::Next, Fit::Tip, Fit::Future, Fit::Past]),
                            ntx: r.below(3) as u8,
                            salt: r.below(salts) as u32,
                        },
                        6 => Op::ReadHeight,
                        7 => Op::ReadLast,
                        8 | 9 => Op::ReadAt { back: r.below(4) as u8 },
                        _ => Op::ReadHash { back: r.below(4) as u8 },
                    },
                    Mode::Ledger => {
                        let gas = r.pct(35);
                        match r.below(12) {
                            0..=2 => Op::Add { gas, a, v },
                            3..=5 => Op::Sub { gas, a, v },
                            6..=8 => Op::Send { gas, from: a, to: b, v },
                            9 if r.pct(30) => Op::Set { a, v },
                            _ => Op::Balance { gas, a },
                        }
                    }
                    Mode::Submit => match r.below(12) {
                        0..=5 => {
                            salt += 1;
                            let fresh = if prop == "C09" { 45 } else { 75 };
                            if salt > 1 && !r.pct(fresh) {
                                Op::ReTx { idx: r.below(4) as u8 }
                            } else {
                                // a small set of distinct transactions: several clients hold the same one
                                let s = if prop == "C09" { r.below(4) as u32 } else { r.below(12) as u32 };
                                let from = 1 + (s as u64 % naddr) as u8;
                                let to = 1 + ((s as u64 / 2 + 1) % (naddr + 1)) as u8;
                                Op::Tx { from, to, v: Amt::N([0, 1, 20, 50, 90, 62_000][s as usize % 6]), salt: s, data: [0, 5, 10, 0, 5, 180][s as usize % 6] }
                            }
                        }
                        6 | 7 => Op::ReTx { idx: r.below(6) as u8 },
                        8 => Op::TxExists { idx: r.below(4) as u8 },
                        9 if !gas_debits && !(debits && r.pct(70)) => Op::Add { gas: true, a, v: Amt::N(submit_price * r.range(1, 200)) },
                        9 | 10 if gas_debits && crash_round.is_none() => {
                            let v = match r.below(4) {
                                0 => Amt::Bal,
                                1 => Amt::Half,
                                _ => Amt::N(submit_price * r.range(1, 300)),
                            };
                            if r.pct(50) {
                                Op::Sub { gas: true, a, v }
                            } else {
                                Op::Send { gas: true, from: a, to: b, v }
                            }
                        }
                        9 | 10 if debits && crash_round.is_none() => {
                            // what is left must not pay a submission that was judged before
                            let v = if r.pct(50) { Amt::Bal } else { Amt::N(r.range(1, 70_000)) };
                            if r.pct(40) {
                                Op::Sub { gas: false, a, v }
                            } else {
                                Op::Send { gas: false, from: a, to: b, v }
                            }
                        }
                        _ => Op::Add { gas: false, a, v: Amt::N(r.range(1, 100)) },
                    },
                    Mode::Pool => match r.below(12) {
                        0..=5 => Op::Push { item: r.below(items.max(9)) as u16 },
                        6..=8 => Op::Pop,
                        9 => Op::Len,
                        10 => Op::Contains { item: r.below(items.max(9)) as u16 },
                        _ => Op::Yield { n: 1 },
                    },
                    Mode::Sum => match r.below(10) {
                        0..=4 if quits && r.pct(40) => Op::Abandon { what: Box::new(if r.pct(60) { Op::AddFunds { a, v } } else { Op::DecFunds { a, v } }), polls: r.range(1, 4) as u8, hold: r.below(4) as u8 },
                        0..=4 => Op::AddFunds { a, v },
                        5..=7 => Op::DecFunds { a, v },
                        _ => Op::GetFunds { a },
                    },
                };
                push(cid, op);
            }
        }
    }
}
