//! Engine S3: a cluster of nodes in one process, each on its own simulated disk, joined by a
//! simulated network that loses, duplicates, delays, reorders, corrupts and partitions. Honest nodes
//! take turns at emitting; followers decode, validate against their tip and append. Nodes crash and
//! restart. Forged blocks and garbled bytes are thrown at every decoder along the way.
use super::model::*;
use super::plan::*;
use super::s1::{blk_of, mine, shift, transfer, debit, Bal, Blk, resolve};
use super::world::*;
use super::gen;
use crate::os::{self, rng::Rng, vfs::CrashMode};
use blockchaintree::block::{self, Block, BlockArc};
use blockchaintree::blockchaintree::BlockChainTree;
use blockchaintree::static_values::*;
use blockchaintree::transaction::{Transaction, Transactionable};
use primitive_types::U256;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const OWNERS: u8 = 2;
const ACCOUNTS: u8 = 4;
const BATCH: u64 = 12;
const KNOWN_MERKLE: &str = "known:transaction hashes reordered under one Merkle parent still validate";

fn dir(n: u8) -> String {
    format!("/sim/n{n}")
}
fn dsk(n: u8) -> String {
    format!("n{n}")
}

// ------------------------------------------------------------------ accounts with real keys
struct Key {
    sk: [u8; 32],
    pk: [u8; 33],
}
fn keys() -> Vec<Key> {
    let s = secp256k1::Secp256k1::new();
    (0..ACCOUNTS)
        .map(|i| {
            let sk = sha(&[b"account", &[i]]);
            let pk = secp256k1::SecretKey::from_slice(&sk).unwrap().public_key(&s).serialize();
            Key { sk, pk }
        })
        .collect()
}

#[derive(Clone)]
struct TxRec {
    from: u8,
    to: u8,
    x: U256,
    dump: Vec<u8>,
    hash: H,
}

#[derive(Clone, Debug)]
enum Body {
    /// a block of the main chain and the transactions it carries
    Block { h: u64, txs: Vec<usize> },
    Deriv { owner: u8, h: u64 },
    Tx { i: usize },
    Tip { height: u64, deriv: Vec<u64> },
    Get { from: u64 },
    GetDeriv { owner: u8, from: u64 },
}
#[derive(Clone, Debug)]
struct Msg {
    at: u64,
    seq: u64,
    from: u8,
    to: u8,
    body: Body,
    bytes: Vec<u8>,
    /// what the sender announced
    hash: H,
    damaged: bool,
}

/// the block being emitted when a node went down
#[derive(Clone, Debug)]
struct Doubt {
    node: u8,
    blk: Option<Blk>,
    txs: Vec<usize>,
}

#[derive(Default)]
struct Node {
    tree: Option<BlockChainTree>,
    pending: Option<(CrashSpec, u8)>,
    /// heights that an acknowledged flush made durable
    wm: u64,
    dwm: BTreeMap<u8, u64>,
    height: u64,
    dheight: BTreeMap<u8, u64>,
    coins: Bal,
    gas: Bal,
    present: BTreeSet<usize>,
    flushed: BTreeSet<usize>,
    /// balances at the last acknowledged flush
    fcoins: Bal,
    fgas: Bal,
    /// transactions whose fate a crash left open: not submitted to this node any more
    open_fate: BTreeSet<usize>,
    /// blocks that arrived before their predecessors
    early: BTreeMap<u64, Msg>,
}

struct C {
    rt: Option<tokio::runtime::Runtime>,
    n: Vec<Node>,
    keys: Vec<Key>,
    truth: Vec<Blk>,
    truth_tx: Vec<Vec<usize>>,
    dtruth: BTreeMap<u8, Vec<Blk>>,
    danchor: BTreeMap<u8, H>,
    doubt: Option<Doubt>,
    ddoubt: BTreeMap<u8, Blk>,
    txs: Vec<TxRec>,
    q: Vec<Msg>,
    seq: u64,
    part: u8,
    net: Rng,
    loss: u64,
    dup: u64,
    corrupt: u64,
    delay: u64,
    carry: bool,
    fatal: bool,
    /// bytes seen on the network, to splice with
    seen: Vec<Vec<u8>>,
}

pub fn run(p: &Plan) {
    let nn = p.param("nodes", 3) as u8;
    for i in 0..nn {
        os::mount(&dsk(i));
    }
    let mut c = C {
        rt: Some(rt()),
        n: (0..nn).map(|_| Node::default()).collect(),
        keys: keys(),
        truth: vec![],
        truth_tx: vec![],
        dtruth: BTreeMap::new(),
        danchor: BTreeMap::new(),
        doubt: None,
        ddoubt: BTreeMap::new(),
        txs: vec![],
        q: vec![],
        seq: 0,
        part: 0,
        net: Rng::new(p.seed, 901),
        loss: p.param("loss", 0),
        dup: p.param("dup", 0),
        corrupt: p.param("corrupt", 0),
        delay: p.param("delay", 5_000_000),
        carry: p.param("carry", 1) == 1,
        fatal: false,
        seen: vec![],
    };
    c.start();
    let pre = p.param("prefill", 0);
    for k in 0..pre {
        if c.stop() {
            break;
        }
        c.emit(0, 5_000, (k % 3) as u8, true);
    }
    if pre > 0 && !c.stop() {
        c.flush(0);
    }
    for s in &p.steps {
        if c.stop() {
            break;
        }
        c.step(s);
        c.harvest();
    }
    if !c.stop() {
        c.finish();
    }
    for i in 0..nn {
        c.close(i);
    }
    drop(c.rt.take());
}

impl C {
    fn stop(&self) -> bool {
        self.fatal || violated()
    }
    fn die(&mut self, props: &[&str], class: &str, detail: String) {
        violate(props, class, detail);
        self.fatal = true;
    }
    fn nodes(&self) -> u8 {
        self.n.len() as u8
    }
    fn up(&self, i: u8) -> bool {
        self.n[i as usize].tree.is_some()
    }
    fn tree(&self, i: u8) -> &BlockChainTree {
        self.n[i as usize].tree.as_ref().unwrap()
    }
    fn crashed(&self, i: u8) -> bool {
        os::crashed(&dsk(i))
    }
    fn close(&mut self, i: u8) {
        if let Some(t) = self.n[i as usize].tree.take() {
            let _ = attempt(|| {
                drop(t);
                Ok::<_, ()>(())
            });
        }
    }
    fn acct(&self, a: u8) -> [u8; 33] {
        self.keys[(a % ACCOUNTS) as usize].pk
    }

    // -------------------------------------------------------------- life of a node
    fn start(&mut self) {
        for i in 0..self.nodes() {
            match attempt(|| BlockChainTree::new(&dir(i))) {
                Out::Ok(t) => self.n[i as usize].tree = Some(t),
                r => {
                    self.die(&["C12"], "first-start", format!("node {i}: {}", r.why()));
                    return;
                }
            }
            let Some((v, _)) = self.read_main(i) else { return };
            if v.len() != 1 {
                self.die(&["C12"], "no-genesis", format!("node {i} starts with {} blocks", v.len()));
                return;
            }
            if i == 0 {
                self.truth = v;
                self.truth_tx = vec![vec![]];
            } else if self.truth[0].dump != v[0].dump {
                self.die(&["C12"], "genesis-differs", format!("node {i} has another genesis block than node 0"));
                return;
            }
            self.n[i as usize].height = 1;
            // the accounts are funded, and that is durable
            for a in 0..ACCOUNTS {
                let k = self.acct(a);
                let coins = U256::from(400_000u64) * U256::from(a as u64 + 1);
                let gas = *BYTE_GAS_PRICE * U256::from(170u64 * (6 + 5 * a as u64));
                let t = self.tree(i);
                let _ = attempt(|| t.add_amount(&k, coins));
                let _ = attempt(|| t.add_gas(&k, gas));
            }
            self.rebaseline(i);
            self.flush(i);
        }
    }
    fn rebaseline(&mut self, i: u8) {
        for a in 0..ACCOUNTS {
            let k = self.acct(a);
            let t = self.tree(i);
            let (c, g) = (attempt(|| t.get_amount(&k)), attempt(|| t.get_gas(&k)));
            match (c, g) {
                (Out::Ok(c), Out::Ok(g)) => {
                    let n = &mut self.n[i as usize];
                    n.coins.insert(a, c);
                    n.gas.insert(a, g);
                }
                (c, g) => {
                    self.die(&["C09"], "balance-unreadable", format!("node {i}: {} {}", c.why(), g.why()));
                    return;
                }
            }
        }
    }
    /// flush everything on a node; true if it was acknowledged before any crash
    fn flush(&mut self, i: u8) -> bool {
        let r = {
            let (rt, t) = (self.rt.as_ref().unwrap(), self.tree(i));
            attempt(|| rt.block_on(t.flush()))
        };
        if self.crashed(i) {
            return false;
        }
        if !r.is_ok() {
            self.die(&["C18"], "flush-failed", format!("node {i}: {}", r.why()));
            return false;
        }
        let n = &mut self.n[i as usize];
        n.wm = n.height;
        n.flushed = n.present.clone();
        n.fcoins = n.coins.clone();
        n.fgas = n.gas.clone();
        true
    }
    fn flush_deriv(&mut self, i: u8, o: u8) -> bool {
        let t = self.n[i as usize].tree.as_mut().unwrap();
        let ch = match attempt(|| t.get_derivative_chain(&addr(o + 2))) {
            Out::Ok(c) => c,
            r => {
                if !self.crashed(i) {
                    self.die(&["C04"], "deriv-open", format!("node {i}: {}", r.why()));
                }
                return false;
            }
        };
        let r = attempt(|| self.rt.as_ref().unwrap().block_on(ch.flush()));
        if self.crashed(i) {
            return false;
        }
        if !r.is_ok() {
            self.die(&["C18", "C04"], "flush-failed", format!("node {i}: {}", r.why()));
            return false;
        }
        let n = &mut self.n[i as usize];
        let h = n.dheight.get(&o).copied().unwrap_or(0);
        n.dwm.insert(o, h);
        true
    }
    /// nodes whose disk image was taken are dead
    fn harvest(&mut self) {
        for i in 0..self.nodes() {
            if self.up(i) && self.crashed(i) {
                probe("node_crash:in_disk_op");
                self.down(i);
            }
            if let Some((spec, left)) = self.n[i as usize].pending.clone() {
                if !self.up(i) {
                    self.n[i as usize].pending = None;
                } else if left == 0 {
                    os::disarm_crash(&dsk(i));
                    os::crash_now(&dsk(i), spec.mode, spec.seed);
                    probe("node_crash:between");
                    self.down(i);
                } else {
                    self.n[i as usize].pending = Some((spec, left - 1));
                }
            }
        }
    }
    fn down(&mut self, i: u8) {
        self.n[i as usize].early.clear();
        hist(|| format!("node {i} is down: {}", os::disk(&dsk(i)).crash_op));
        self.n[i as usize].pending = None;
        self.close(i);
    }
    fn restart(&mut self, i: u8) {
        if self.up(i) {
            if self.crashed(i) {
                self.down(i);
            } else {
                // graceful: flush, close
                os::disarm_crash(&dsk(i));
                self.n[i as usize].pending = None;
                self.flush(i);
                for o in 0..OWNERS {
                    if !self.stop() && self.n[i as usize].dheight.get(&o).copied().unwrap_or(0) > 0 {
                        self.flush_deriv(i, o);
                    }
                }
                self.close(i);
                probe("node_restart");
            }
        }
        if self.stop() {
            return;
        }
        os::disarm_crash(&dsk(i));
        let crashed = self.crashed(i);
        if crashed {
            os::remount_after_crash(&dsk(i));
        }
        match attempt(|| BlockChainTree::new(&dir(i))) {
            Out::Ok(t) => self.n[i as usize].tree = Some(t),
            r => {
                self.die(&["C02", "C12"], "node-does-not-reopen", format!("node {i}: {}", r.why()));
                return;
            }
        }
        self.recover(i, crashed);
    }
    fn recover(&mut self, i: u8, crashed: bool) {
        let Some((v, _)) = self.read_main(i) else { return };
        let d = if self.doubt.as_ref().is_some_and(|d| d.node == i) { self.doubt.take() } else { None };
        let mut t = self.truth.clone();
        let mut tt = self.truth_tx.clone();
        if let Some(d) = &d {
            if let Some(b) = &d.blk {
                t.push(b.clone());
                tt.push(d.txs.clone());
            }
        }
        if v.len() > t.len() || v.iter().zip(&t).any(|(a, b)| a.dump != b.dump) {
            self.die(&["C03", "C12"], "recovered-chain-differs", format!("node {i} recovered {} blocks that are not a prefix of the {} agreed ones", v.len(), t.len()));
            return;
        }
        let wm = self.n[i as usize].wm;
        if (v.len() as u64) < wm {
            self.die(&["C01", "C12"], "flushed-blocks-lost", format!("node {i} had flushed {wm} blocks and recovered {}", v.len()));
            return;
        }
        if v.len() > self.truth.len() {
            // the block being emitted reached the disk: it is part of the chain
            probe("in_doubt_block_survived");
            self.truth = t;
            self.truth_tx = tt;
        }
        let nn = v.len() as u64;
        self.n[i as usize].height = nn;
        for o in 0..OWNERS {
            let dd = if o % self.nodes() == i { self.ddoubt.remove(&o) } else { None };
            let had = self.dtruth.get(&o).map(|x| x.len()).unwrap_or(0);
            if had == 0 && dd.is_none() {
                continue;
            }
            let Some(v) = self.read_deriv(i, o) else { return };
            let mut t = self.dtruth.get(&o).cloned().unwrap_or_default();
            if let Some(b) = dd {
                t.push(b);
            }
            if v.len() > t.len() || v.iter().zip(&t).any(|(a, b)| a.dump != b.dump) {
                self.die(&["C04", "C12"], "recovered-chain-differs", format!("node {i}, derivative {o}: {} blocks that are not a prefix of the agreed ones", v.len()));
                return;
            }
            let wm = self.n[i as usize].dwm.get(&o).copied().unwrap_or(0);
            if (v.len() as u64) < wm {
                self.die(&["C04"], "flushed-blocks-lost", format!("node {i}, derivative {o}: had flushed {wm} blocks and recovered {}", v.len()));
                return;
            }
            if v.len() > had {
                self.dtruth.insert(o, t);
            }
            self.n[i as usize].dheight.insert(o, v.len() as u64);
        }
        // transactions
        let m = self.tree(i).get_main_chain();
        let mut now = BTreeSet::new();
        for k in 0..self.txs.len() {
            let h = self.txs[k].hash;
            match attempt(|| m.transaction_exists(&h)) {
                Out::Ok(true) => {
                    now.insert(k);
                }
                Out::Ok(false) => {}
                r => {
                    self.die(&["C09"], "record-unreadable", r.why());
                    return;
                }
            }
        }
        let flushed = self.n[i as usize].flushed.clone();
        if let Some(k) = flushed.iter().find(|k| !now.contains(k)) {
            let x = hex8(&self.txs[*k].hash);
            self.die(&["C01", "C09"], "flushed-tx-lost", format!("node {i} forgot transaction {x}, which it had flushed: delivered again, it would be applied again"));
            return;
        }
        let before = (self.n[i as usize].coins.clone(), self.n[i as usize].gas.clone());
        let same = self.n[i as usize].present == flushed;
        self.rebaseline(i);
        if self.stop() {
            return;
        }
        let n = &mut self.n[i as usize];
        if !crashed || same {
            // nothing was submitted since the flush
            if n.coins != before.0 || n.gas != before.1 || n.present != now {
                let s = format!("node {i}: coins {:?} became {:?}, gas {:?} became {:?}", before.0, n.coins, before.1, n.gas);
                self.die(&["C01", "C17"], "restart-moved-balances", s);
                return;
            }
        } else {
            for k in n.present.symmetric_difference(&flushed) {
                n.open_fate.insert(*k);
            }
            for k in now.symmetric_difference(&flushed) {
                n.open_fate.insert(*k);
            }
        }
        n.present = now;
        hist(|| format!("node {i} is up with {nn} blocks"));
        self.flush(i);
    }
    // -------------------------------------------------------------- reading
    fn read_main(&mut self, i: u8) -> Option<(Vec<Blk>, Option<H>)> {
        let mc = self.tree(i).get_main_chain();
        let h = mc.get_height();
        if h > U256::from(5000) {
            self.die(&["C03", "C12"], "height-absurd", format!("node {i}: {h}"));
            return None;
        }
        let mut v = vec![];
        for k in 0..h.as_u64() {
            match attempt(|| mc.find_raw_by_height(&U256::from(k))) {
                Out::Ok(Some(r)) => match attempt(|| block::deserialize_main_chain_block(&r)) {
                    Out::Ok(b) => {
                        let mut x = blk_of(&*b, true);
                        x.dump = r;
                        v.push(x);
                    }
                    o => {
                        self.die(&["C03", "C12", "C13"], "stored-block-undecodable", format!("node {i}, block {k}: {}", o.why()));
                        return None;
                    }
                },
                o => {
                    self.die(&["C03", "C12"], "hole-in-chain", format!("node {i}: height {h} but block {k}: {}", o.tag()));
                    return None;
                }
            }
        }
        let last = match attempt(|| mc.get_last_block()) {
            Out::Ok(Some(b)) => b.hash().ok(),
            _ => None,
        };
        Some((v, last))
    }
    fn read_deriv(&mut self, i: u8, o: u8) -> Option<Vec<Blk>> {
        let t = self.n[i as usize].tree.as_mut().unwrap();
        let ch = match attempt(|| t.get_derivative_chain(&addr(o + 2))) {
            Out::Ok(c) => c,
            r => {
                self.die(&["C04"], "deriv-open", format!("node {i}: {}", r.why()));
                return None;
            }
        };
        let h = ch.get_height();
        if h > U256::from(5000) {
            self.die(&["C04", "C12"], "height-absurd", format!("node {i}: {h}"));
            return None;
        }
        let mut v = vec![];
        for k in 0..h.as_u64() {
            match attempt(|| ch.find_by_height(&U256::from(k))) {
                Out::Ok(Some(b)) => v.push(blk_of(&*b, true)),
                r => {
                    self.die(&["C04", "C12"], "deriv-hole", format!("node {i}, derivative {o}, block {k}: {}", r.tag()));
                    return None;
                }
            }
        }
        Some(v)
    }

    // -------------------------------------------------------------- the network
    fn send(&mut self, from: u8, to: u8, body: Body, bytes: Vec<u8>, hash: H) {
        if (self.part >> from & 1) != (self.part >> to & 1) {
            probe("net:partitioned");
            return;
        }
        if self.net.ppm(self.loss) {
            probe("net:lost");
            return;
        }
        let copies = if self.net.ppm(self.dup) {
            probe("net:duplicated");
            self.net.range(2, 3)
        } else {
            1
        };
        for _ in 0..copies {
            let mut m = Msg { at: 0, seq: self.seq, from, to, body: body.clone(), bytes: bytes.clone(), hash, damaged: false };
            self.seq += 1;
            let mut d = self.net.below(self.delay.max(1));
            if self.net.pct(8) {
                d *= 20;
                probe("net:delayed");
            }
            m.at = os::sim().now + 10_000 + d;
            if !m.bytes.is_empty() && self.net.ppm(self.corrupt) {
                let x = garble(&bytes, self.net.below(GARBLES as u64) as u8, &mut self.net, &self.seen);
                if x != bytes {
                    probe("net:corrupted");
                    m.bytes = x;
                    m.damaged = true;
                }
            }
            if self.q.last().map(|l| l.at > m.at).unwrap_or(false) {
                probe("net:reordered");
            }
            self.q.push(m);
        }
    }
    fn deliver_next(&mut self) -> bool {
        let Some(k) = (0..self.q.len()).min_by_key(|k| (self.q[*k].at, self.q[*k].seq)) else { return false };
        let m = self.q.swap_remove(k);
        let now = os::sim().now;
        if m.at > now {
            os::sleep_ns(m.at - now);
            os::progress();
        }
        if (self.part >> m.from & 1) != (self.part >> m.to & 1) {
            probe("net:partitioned");
            return true;
        }
        if !self.up(m.to) {
            probe("net:peer_down");
            return true;
        }
        self.receive(m);
        self.harvest();
        true
    }
    fn receive(&mut self, m: Msg) {
        match m.body.clone() {
            Body::Block { h, txs } => self.on_block(&m, h, txs),
            Body::Deriv { owner, h } => self.on_deriv(&m, owner, h),
            Body::Tx { i } => self.on_tx(&m, i),
            Body::Tip { height, deriv } => {
                let me = &self.n[m.to as usize];
                if height > me.height {
                    let f = me.height;
                    self.send(m.to, m.from, Body::Get { from: f }, vec![], [0; 32]);
                }
                for (o, h) in deriv.iter().enumerate() {
                    let mine = self.n[m.to as usize].dheight.get(&(o as u8)).copied().unwrap_or(0);
                    if *h > mine {
                        self.send(m.to, m.from, Body::GetDeriv { owner: o as u8, from: mine }, vec![], [0; 32]);
                    }
                }
            }
            Body::Get { from } => {
                let have = self.n[m.to as usize].height;
                for h in from..have.min(from + BATCH) {
                    self.send_block(m.to, m.from, h);
                }
            }
            Body::GetDeriv { owner, from } => {
                let have = self.n[m.to as usize].dheight.get(&owner).copied().unwrap_or(0);
                for h in from..have.min(from + BATCH) {
                    self.send_deriv(m.to, m.from, owner, h);
                }
            }
        }
    }
    fn announce(&mut self, from: u8, to: u8) {
        let n = &self.n[from as usize];
        let b = Body::Tip { height: n.height, deriv: (0..OWNERS).map(|o| n.dheight.get(&o).copied().unwrap_or(0)).collect() };
        self.send(from, to, b, vec![], [0; 32]);
    }
    /// a block is served from the sender's own store
    fn send_block(&mut self, from: u8, to: u8, h: u64) {
        if self.stop() {
            return;
        }
        let mc = self.tree(from).get_main_chain();
        let r = attempt(|| mc.find_raw_by_height(&U256::from(h)));
        if self.crashed(from) {
            return;
        }
        match r {
            Out::Ok(Some(r)) if r == self.truth[h as usize].dump => {
                let hash = self.truth[h as usize].hash;
                let txs = if self.carry { self.truth_tx[h as usize].clone() } else { vec![] };
                self.send(from, to, Body::Block { h, txs }, r, hash);
            }
            x => self.die(&["C03", "C12"], "replica-differs", format!("node {from}: block {h} is not the agreed one ({})", x.tag())),
        }
    }
    fn send_deriv(&mut self, from: u8, to: u8, o: u8, h: u64) {
        if self.stop() {
            return;
        }
        let t = self.n[from as usize].tree.as_mut().unwrap();
        let r = match attempt(|| t.get_derivative_chain(&addr(o + 2))) {
            Out::Ok(c) => attempt(|| c.find_raw_by_height(&U256::from(h))),
            r => Out::Err(r.why()),
        };
        if self.crashed(from) {
            return;
        }
        match r {
            Out::Ok(Some(r)) if r == self.dtruth[&o][h as usize].dump => {
                let hash = self.dtruth[&o][h as usize].hash;
                self.send(from, to, Body::Deriv { owner: o, h }, r, hash);
            }
            x => self.die(&["C04", "C12"], "replica-differs", format!("node {from}, derivative {o}: block {h} is not the agreed one ({})", x.tag())),
        }
    }

    // -------------------------------------------------------------- what a node does with bytes
    fn on_block(&mut self, m: &Msg, h: u64, txs: Vec<usize>) {
        let i = m.to;
        let r = attempt(|| block::deserialize_main_chain_block(&m.bytes));
        let b = match r {
            Out::Ok(b) => b,
            Out::Panic(e) => {
                self.die(&["C13"], "decode-panic", format!("block bytes {}: {e}", hexs(&m.bytes)));
                return;
            }
            Out::Err(e) => {
                if !m.damaged {
                    self.die(&["C12", "C13"], "honest-block-undecodable", format!("node {i} cannot decode block {h} ({}): {e}", hexs(&m.bytes)));
                }
                return;
            }
        };
        if !m.damaged {
            if !self.intact(&*b, &m.bytes, &m.hash, &format!("block {h}")) {
                return;
            }
        } else {
            self.damaged_value(&m.bytes);
            if self.stop() || b.hash().ok() != Some(m.hash) {
                return;
            }
        }
        let have = self.n[i as usize].height;
        if h < have {
            // known already: it must be the same one
            let mc = self.tree(i).get_main_chain();
            let r = attempt(|| mc.find_by_hash(&m.hash));
            if self.crashed(i) {
                return;
            }
            match r {
                Out::Ok(Some(x)) if x.dump().ok().as_deref() == Some(&self.truth[h as usize].dump[..]) => probe("duplicate_block"),
                x => self.die(&["C03", "C12"], "replica-differs", format!("node {i}: block {h} is not found by its hash ({})", x.tag())),
            }
            return;
        }
        if h > have {
            probe("block_from_the_future");
            let e = &mut self.n[i as usize].early;
            if h < have + 40 && !m.damaged {
                e.insert(h, m.clone());
            }
            return;
        }
        let mc = self.tree(i).get_main_chain();
        let prev = match attempt(|| mc.get_last_block()) {
            Out::Ok(Some(p)) => p,
            r => {
                if !self.crashed(i) {
                    self.die(&["C12", "C03"], "no-tip", format!("node {i}: {}", r.tag()));
                }
                return;
            }
        };
        if self.crashed(i) {
            return;
        }
        match attempt(|| b.validate(Some(prev))) {
            Out::Ok(true) => {}
            r => {
                let x = match r {
                    Out::Ok(_) => "false".into(),
                    r => r.why(),
                };
                self.die(&["C12"], "honest-block-refused", format!("node {i}: block {h} does not validate against its predecessor: {x}"));
                return;
            }
        }
        let list: Vec<Transaction> = txs.iter().map(|k| Transaction::parse(&self.txs[*k].dump[1..]).unwrap()).collect();
        let t = self.tree(i);
        let r = attempt(|| t.add_new_block(b, &list));
        if self.crashed(i) {
            return;
        }
        match r {
            Out::Ok(()) => {
                probe("block_replicated");
                let n = &mut self.n[i as usize];
                n.height += 1;
                n.present.extend(txs);
                hist(|| format!("node {i} appends block {h}"));
                n.early.retain(|k, _| *k > h);
                if let Some(m) = n.early.remove(&(h + 1)) {
                    self.receive(m);
                }
            }
            r => self.die(&["C12", "C03"], "honest-block-refused", format!("node {i}: block {h} is refused: {}", r.why())),
        }
    }
    fn on_deriv(&mut self, m: &Msg, o: u8, h: u64) {
        let i = m.to;
        if m.bytes.first() != Some(&3) {
            return;
        }
        let r = attempt(|| block::DerivativeBlock::parse(&m.bytes[1..]));
        let b = match r {
            Out::Ok(b) => b,
            Out::Panic(e) => {
                self.die(&["C13"], "decode-panic", format!("derivative bytes {}: {e}", hexs(&m.bytes)));
                return;
            }
            Out::Err(e) => {
                if !m.damaged {
                    self.die(&["C12", "C13"], "honest-block-undecodable", format!("node {i} cannot decode derivative block {h}: {e}"));
                }
                return;
            }
        };
        if !m.damaged {
            if !self.intact(&b, &m.bytes, &m.hash, &format!("derivative block {h}")) {
                return;
            }
        } else {
            self.damaged_value(&m.bytes);
            if self.stop() || b.hash().ok() != Some(m.hash) {
                return;
            }
        }
        let have = self.n[i as usize].dheight.get(&o).copied().unwrap_or(0);
        if h != have {
            probe(if h > have { "derivative_from_the_future" } else { "duplicate_derivative" });
            return;
        }
        if o % self.nodes() == i && self.ddoubt.contains_key(&o) {
            return;
        }
        let t = self.n[i as usize].tree.as_mut().unwrap();
        let mc = t.get_main_chain();
        let ch = match attempt(|| t.get_derivative_chain(&addr(o + 2))) {
            Out::Ok(c) => c,
            r => {
                if !self.crashed(i) {
                    self.die(&["C04", "C12"], "deriv-open", format!("node {i}: {}", r.why()));
                }
                return;
            }
        };
        let prev = if h == 0 {
            // the anchor has to be known
            match attempt(|| mc.find_by_hash(&b.get_info().previous_hash)) {
                Out::Ok(None) => {
                    probe("derivative_before_anchor");
                    return;
                }
                Out::Ok(x) => x,
                r => {
                    if !self.crashed(i) {
                        self.die(&["C12"], "anchor-unreadable", r.why());
                    }
                    return;
                }
            }
        } else {
            match attempt(|| ch.get_last_block()) {
                Out::Ok(Some(b)) => Some(Arc::new(b) as BlockArc),
                r => {
                    if !self.crashed(i) {
                        self.die(&["C12", "C04"], "no-tip", format!("node {i}, derivative {o}: {}", r.tag()));
                    }
                    return;
                }
            }
        };
        if self.crashed(i) {
            return;
        }
        // a derivative chain starts at the beginning difficulty, whatever its anchor's is: only
        // against an anchor of that difficulty the first block validates as such
        let prev = prev.filter(|p| h > 0 || p.get_info().difficulty == BEGINNING_DIFFICULTY);
        match attempt(|| b.validate(prev.clone())) {
            Out::Ok(true) => {}
            r => {
                let x = match r {
                    Out::Ok(_) => "false".into(),
                    r => r.why(),
                };
                self.die(&["C12"], "honest-block-refused", format!("node {i}: derivative block {h} of {o} does not validate: {x}"));
                return;
            }
        }
        let r = attempt(|| ch.add_block(&b));
        if self.crashed(i) {
            return;
        }
        match r {
            Out::Ok(()) => {
                probe("derivative_replicated");
                self.n[i as usize].dheight.insert(o, h + 1);
                hist(|| format!("node {i} appends derivative {o} block {h}"));
            }
            r => self.die(&["C12", "C04"], "honest-block-refused", format!("node {i}: derivative block {h} of {o} is refused: {}", r.why())),
        }
    }
    fn on_tx(&mut self, m: &Msg, k: usize) {
        let i = m.to;
        if m.bytes.first() != Some(&(blockchaintree::dump_headers::Headers::Transaction as u8)) {
            return;
        }
        let t = match attempt(|| Transaction::parse(&m.bytes[1..])) {
            Out::Ok(t) => t,
            Out::Panic(e) => {
                self.die(&["C13"], "decode-panic", format!("transaction bytes {}: {e}", hexs(&m.bytes)));
                return;
            }
            Out::Err(e) => {
                if !m.damaged {
                    self.die(&["C13"], "honest-tx-undecodable", format!("transaction {}: {e}", hexs(&m.bytes)));
                }
                return;
            }
        };
        if m.damaged {
            self.damaged_value(&m.bytes);
            match attempt(|| t.verify()) {
                Out::Panic(e) => self.die(&["C13"], "verify-panic", format!("{}: {e}", hexs(&m.bytes))),
                Out::Ok(true) => probe("damaged_tx_verifies"),
                _ => {}
            }
            return;
        }
        let d = attempt(|| t.dump());
        if d.ok().as_deref() != Some(&m.bytes[..]) || t.hash() != m.hash || t.get_dump_size() != m.bytes.len() {
            self.die(&["C13"], "decoded-value-differs", format!("transaction {} does not encode to the bytes it came from", hexs(&m.bytes)));
            return;
        }
        if !matches!(attempt(|| t.verify()), Out::Ok(true)) {
            probe("honest_tx_does_not_verify");
            return;
        }
        if self.n[i as usize].open_fate.contains(&k) {
            return;
        }
        self.submit(i, k, &t);
    }
    fn submit(&mut self, i: u8, k: usize, t: &Transaction) {
        let r = self.txs[k].clone();
        let n = &self.n[i as usize];
        let price = *BYTE_GAS_PRICE * U256::from(r.dump.len());
        let (coins, gas) = (n.coins[&r.from], n.gas[&r.from]);
        let dup = n.present.contains(&k);
        let fee = *FEE_STEP * U256::from(lz(&self.truth[n.height as usize - 1].diff));
        let room = r.from == r.to || n.coins[&r.to].checked_add(r.x).is_some();
        let can = coins >= r.x && gas >= price && room && !dup;
        let must = can && coins.checked_sub(r.x).map(|c| c >= fee).unwrap_or(false);
        let out = {
            let tree = self.tree(i);
            attempt(|| tree.send_transaction(t))
        };
        if self.crashed(i) {
            // did or did not happen
            self.n[i as usize].open_fate.insert(k);
            return;
        }
        hist(|| format!("node {i} gets transaction {k}{}: {}", if dup { " again" } else { "" }, out.tag()));
        let x = hex8(&r.hash);
        match &out {
            Out::Ok(()) => {
                if dup {
                    self.die(&["C09"], "applied-twice", format!("node {i} accepted transaction {x} again"));
                    return;
                }
                if !can {
                    self.die(&["C08"], "unaffordable-accepted", format!("node {i}: transaction {x} of {} with coins {coins}, gas {gas}", r.x));
                    return;
                }
                probe("tx_accepted");
                let n = &mut self.n[i as usize];
                transfer(&mut n.coins, r.from, r.to, r.x);
                debit(&mut n.gas, r.from, price);
                n.present.insert(k);
            }
            o if o.is_panic() => {
                self.die(&["C08", "C09"], "submit-panic", o.why());
                return;
            }
            o => {
                if must {
                    let s = o.why();
                    self.die(&["C08", "C09"], "affordable-refused", format!("node {i}: transaction {x} of {} with coins {coins}, gas {gas}, fee {fee}: {s}", r.x));
                    return;
                }
                probe(if dup { "duplicate_refused" } else { "tx_refused" });
            }
        }
        // the ledgers are exactly as they should be
        let want = (self.n[i as usize].coins.clone(), self.n[i as usize].gas.clone());
        self.rebaseline(i);
        if self.crashed(i) {
            return;
        }
        let n = &self.n[i as usize];
        if (&n.coins, &n.gas) != (&want.0, &want.1) {
            let s = format!("node {i}, transaction {x} ({}{}): coins {:?} gas {:?}, expected {:?} {:?}", out.tag(), if dup { ", a duplicate" } else { "" }, n.coins, n.gas, want.0, want.1);
            self.die(if dup { &["C09"] } else { &["C08", "C09"] }, "wrong-effect", s);
        }
    }

    // -------------------------------------------------------------- checks on decoded values
    fn intact(&mut self, b: &dyn Block, bytes: &[u8], hash: &H, what: &str) -> bool {
        let d = attempt(|| b.dump());
        let h = attempt(|| b.hash());
        if d.ok().as_deref() != Some(bytes) || h.ok() != Some(*hash) || b.get_dump_size() != bytes.len() {
            self.die(&["C13", "C12"], "decoded-value-differs", format!("{what} ({}) does not encode to the bytes it came from", hexs(bytes)));
            return false;
        }
        true
    }
    /// bytes that are not what an honest node sent: every decoder refuses them or gives a value
    /// that can be used
    fn damaged_value(&mut self, bytes: &[u8]) {
        probe("garbled_bytes_decoded");
        let mut bad: Option<String> = None;
        let mut note = |w: &str, e: String| {
            if bad.is_none() {
                bad = Some(format!("{w}: {e}"));
            }
        };
        let prevs: Vec<BlockArc> = self.truth.iter().rev().take(2).filter_map(|b| block::deserialize_main_chain_block(&b.dump).ok()).collect();
        let check = |b: BlockArc, again: &dyn Fn(&[u8]) -> Out<Vec<u8>>, note: &mut dyn FnMut(&str, String)| {
            let d = match attempt(|| b.dump()) {
                Out::Ok(d) => d,
                r => return note("dump", r.why()),
            };
            match attempt(|| b.hash()) {
                Out::Ok(h) if h == sha(&[&d]) => {}
                r => return note("hash", format!("not the hash of the dump ({})", r.tag())),
            }
            match attempt(|| Ok::<_, ()>(b.get_dump_size())) {
                Out::Ok(n) if n == d.len() => {}
                r => return note("dump size", format!("{} for {} bytes", r.ok().unwrap_or(0), d.len())),
            }
            match again(&d) {
                Out::Ok(x) if x == d => {}
                r => return note("decoding its own dump", r.why()),
            }
            for p in prevs.iter().cloned().chain([b.clone()]) {
                if let Out::Panic(e) = attempt(|| b.validate(Some(p.clone()))) {
                    return note("validate", e);
                }
                if let Out::Panic(e) = attempt(|| p.validate(Some(b.clone()))) {
                    return note("validate against it", e);
                }
            }
            probe("garbled_bytes_gave_a_value");
        };
        match attempt(|| block::deserialize_main_chain_block(bytes)) {
            Out::Ok(b) => check(
                b,
                &|d| match attempt(|| block::deserialize_main_chain_block(d)) {
                    Out::Ok(b) => attempt(|| b.dump()),
                    r => Out::Err(r.why()),
                },
                &mut note,
            ),
            Out::Panic(e) => note("deserialize_main_chain_block", e),
            Out::Err(_) => probe("garbled_bytes_refused"),
        }
        for skip in [0usize, 1] {
            let Some(x) = bytes.get(skip..) else { continue };
            match attempt(|| block::DerivativeBlock::parse(x)) {
                Out::Ok(b) => check(
                    Arc::new(b),
                    &|d| match attempt(|| block::DerivativeBlock::parse(&d[1..])) {
                        Out::Ok(b) => attempt(|| b.dump()),
                        r => Out::Err(r.why()),
                    },
                    &mut note,
                ),
                Out::Panic(e) => note("DerivativeBlock::parse", e),
                Out::Err(_) => {}
            }
            for (w, r) in [
                ("TransactionBlock::parse", attempt(|| block::TransactionBlock::parse(x).map(|_| ()))),
                ("SummarizeBlock::parse", attempt(|| block::SummarizeBlock::parse(x).map(|_| ()))),
                ("BasicInfo::parse", attempt(|| block::BasicInfo::parse(x).map(|_| ()))),
            ] {
                if let Out::Panic(e) = r {
                    note(w, e);
                }
            }
            match attempt(|| Transaction::parse(x)) {
                Out::Ok(t) => {
                    let d = attempt(|| t.dump());
                    match d {
                        Out::Ok(d) => {
                            if t.hash() != sha(&[&d]) || t.get_dump_size() != d.len() {
                                note("transaction", "its hash or size is not its dump's".into());
                            }
                            match attempt(|| Transaction::parse(&d[1..])) {
                                Out::Ok(t2) => {
                                    if attempt(|| t2.dump()).ok() != Some(d) {
                                        note("transaction", "does not survive its own encoding".into());
                                    }
                                }
                                r => note("decoding its own dump", r.why()),
                            }
                        }
                        r => note("dump", r.why()),
                    }
                    if let Out::Panic(e) = attempt(|| t.verify()) {
                        note("verify", e);
                    }
                }
                Out::Panic(e) => note("Transaction::parse", e),
                Out::Err(_) => {}
            }
        }
        if let Some(e) = bad {
            self.die(&["C13"], "garbled-bytes", format!("{e}; bytes {}", hexs(bytes)));
        }
    }

    /// a value of any shape a peer may send, which arrives intact
    fn any_value(&mut self, r: &mut Rng) {
        probe("arbitrary_value_decoded");
        let number = |r: &mut Rng| {
            let bits = *r.pick(&[0u64, 0, 1, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 247, 248, 249, 255, 256]);
            let mut b = [0u8; 32];
            r.fill(&mut b);
            let x = U256::from_big_endian(&b);
            match (bits, r.below(3)) {
                (0, _) => U256::zero(),
                (256, 0) => U256::MAX,
                (n, 0) => U256::one() << (n as usize - 1),
                (n, 1) => (U256::MAX >> (256 - n as usize)).max(U256::one()),
                (n, _) => x >> (256 - n as usize),
            }
        };
        let time = |r: &mut Rng| *r.pick(&[0u64, 1, 255, 256, 1_597_924_800, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX >> 1, u64::MAX - 1, u64::MAX]);
        fn bytes<const N: usize>(r: &mut Rng) -> [u8; N] {
            let mut b = [0u8; N];
            match r.below(6) {
                0 => {}
                1 => b = [0xFF; N],
                _ => r.fill(&mut b),
            }
            b
        }
        let mut wrong: Option<String> = None;
        if r.pct(40) {
            let n = *r.pick(&[0usize, 0, 1, 1, 2, 3, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1025, 4097, 65_535, 65_536]);
            let mut data = vec![0u8; n];
            r.fill(&mut data);
            if r.pct(20) {
                data.iter_mut().for_each(|b| *b = 0);
            }
            let (from, to, ts, x, sig) = (bytes::<33>(r), bytes::<33>(r), time(r), number(r), bytes::<64>(r));
            let data = if n == 0 { None } else { Some(data) };
            let t = Transaction::new_signed(from, to, ts, x, data.clone(), sig);
            match attempt(|| t.dump()) {
                Out::Ok(d) => match attempt(|| Transaction::parse(&d[1..])) {
                    Out::Ok(u) => {
                        let same = u.get_sender() == &from
                            && u.get_receiver() == &to
                            && u.get_timestamp() == ts
                            && *u.get_amount() == x
                            && u.get_signature() == &sig
                            && u.get_data().unwrap_or(&[]) == data.as_deref().unwrap_or(&[])
                            && attempt(|| u.dump()).ok().as_ref() == Some(&d)
                            && u.hash() == sha(&[&d])
                            && t.hash() == u.hash()
                            && u.get_dump_size() == d.len();
                        if !same {
                            wrong = Some(format!("a transaction of {x} with {n} bytes of data: {}", hexs(&d)));
                        }
                    }
                    o => wrong = Some(format!("a transaction of {x} with {n} bytes of data is refused: {}", o.why())),
                },
                o => wrong = Some(format!("a transaction of {x} with {n} bytes of data cannot be encoded: {}", o.why())),
            }
        } else {
            let info = block::BasicInfo::new(time(r), bytes(r), bytes(r), number(r), bytes(r), bytes(r));
            let n = *r.pick(&[1usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1000]);
            let (fee, root) = (number(r), bytes(r));
            let list: Vec<H> = (0..n).map(|_| bytes(r)).collect();
            let kind = r.below(3);
            let b: BlockArc = match kind {
                0 => Arc::new(block::TransactionBlock::new(fee, info.clone(), root, list.clone())),
                1 => Arc::new(block::SummarizeBlock { default_info: info.clone(), merkle_tree_root: root }),
                _ => Arc::new(block::DerivativeBlock { default_info: info.clone() }),
            };
            let what = format!("a {} block of height {}", ["transaction", "summary", "derivative"][kind as usize], info.height);
            match attempt(|| b.dump()) {
                Out::Ok(d) => {
                    let back: Out<BlockArc> = if kind == 2 {
                        attempt(|| block::DerivativeBlock::parse(&d[1..]).map(|b| Arc::new(b) as BlockArc))
                    } else {
                        attempt(|| block::deserialize_main_chain_block(&d))
                    };
                    match back {
                        Out::Ok(u) => {
                            let i = u.get_info();
                            let same = i.timestamp == info.timestamp
                                && i.pow == info.pow
                                && i.previous_hash == info.previous_hash
                                && i.height == info.height
                                && i.difficulty == info.difficulty
                                && i.founder == info.founder
                                && attempt(|| u.dump()).ok().as_ref() == Some(&d)
                                && attempt(|| u.hash()).ok() == Some(sha(&[&d]))
                                && u.get_dump_size() == d.len()
                                && (kind == 2 || u.get_merkle_root() == root)
                                && (kind != 0 || (u.get_fee() == fee && u.transactions() == Some(&list[..])));
                            if !same {
                                wrong = Some(format!("{what} with {n} transactions: {}", hexs(&d)));
                            }
                        }
                        o => wrong = Some(format!("{what} with {n} transactions is refused: {}", o.why())),
                    }
                }
                o => wrong = Some(format!("{what} cannot be encoded: {}", o.why())),
            }
        }
        if let Some(e) = wrong {
            self.die(&["C13", "C12"], "decoded-value-differs", e);
        }
    }

    // -------------------------------------------------------------- emission
    fn emit(&mut self, want: u8, dt: i64, ntx: u8, quick: bool) {
        if self.doubt.as_ref().is_some() {
            probe("no_leader");
            return;
        }
        let full = |i: u8| self.up(i) && self.n[i as usize].height == self.truth.len() as u64;
        let Some(i) = [want].into_iter().chain(0..self.nodes()).find(|i| full(*i)) else {
            probe("no_leader");
            return;
        };
        let h = self.truth.len() as u64;
        let tip = self.truth.last().unwrap().clone();
        let epoch = h % BLOCKS_PER_EPOCH as u64 == 0;
        let mut list: Vec<usize> = vec![];
        if !epoch {
            // transactions this node knows and no block carries yet
            let carried: BTreeSet<usize> = self.truth_tx.iter().flatten().copied().collect();
            list = self.n[i as usize].present.iter().copied().filter(|k| !carried.contains(k)).take(ntx as usize).collect();
        }
        let mut hashes: Vec<H> = list.iter().map(|k| self.txs[*k].hash).collect();
        while !epoch && (hashes.is_empty() || (hashes.len() as u64) < if ntx > 40 { super::s1::many(ntx) } else { ntx as u64 % 8 }) {
            hashes.push(sha(&[b"other", &h.to_be_bytes(), &hashes.len().to_be_bytes()]));
        }
        let root = merkle(&hashes);
        let ts = shift(tip.ts, dt);
        let Some(p) = mine(&tip.hash, &root, lz(&tip.diff), Pow::Good, h, &tip.prev) else {
            probe("mining_budget_exceeded");
            return;
        };
        let r = {
            let (rt, t) = (self.rt.as_ref().unwrap(), self.n[i as usize].tree.as_mut().unwrap());
            attempt(|| rt.block_on(t.emmit_new_main_block(&p, &addr(1), &hashes, ts)))
        };
        let crashed = self.crashed(i);
        let b = match r {
            Out::Ok(b) => blk_of(&*b, true),
            r => {
                if !crashed {
                    self.die(&["C11", "C12"], "emission-refused", format!("node {i}: block {h} with a valid proof was refused: {}", r.why()));
                } else {
                    self.doubt = Some(Doubt { node: i, blk: None, txs: vec![] });
                }
                return;
            }
        };
        hist(|| format!("node {i} emits block {h} with {} transactions", hashes.len()));
        probe(if epoch { "summary_block_emitted" } else { "block_emitted" });
        if !crashed {
            if epoch {
                self.rebaseline(i);
                self.n[i as usize].flushed = self.n[i as usize].present.clone();
            }
            self.n[i as usize].height += 1;
            if quick || self.flush(i) {
                self.truth.push(b.clone());
                self.truth_tx.push(list);
                self.n[i as usize].present.extend(self.truth_tx[h as usize].iter().copied());
                if !quick {
                    for j in 0..self.nodes() {
                        if j != i && !self.stop() {
                            self.send_block(i, j, h);
                        }
                    }
                }
                return;
            }
            if self.stop() {
                return;
            }
            self.n[i as usize].height -= 1;
        }
        self.doubt = Some(Doubt { node: i, blk: Some(b), txs: list });
    }
    fn demit(&mut self, o: u8, dt: i64) {
        let i = o % self.nodes();
        if !self.up(i) || self.ddoubt.contains_key(&o) {
            return;
        }
        let t = self.dtruth.get(&o).cloned().unwrap_or_default();
        if self.n[i as usize].dheight.get(&o).copied().unwrap_or(0) != t.len() as u64 {
            return;
        }
        let tree = self.n[i as usize].tree.as_mut().unwrap();
        let ch = match attempt(|| tree.get_derivative_chain(&addr(o + 2))) {
            Out::Ok(c) => c,
            r => {
                if !self.crashed(i) {
                    self.die(&["C04"], "deriv-open", format!("node {i}: {}", r.why()));
                }
                return;
            }
        };
        if self.crashed(i) {
            return;
        }
        let (prev, diff, pts, p2) = match t.last() {
            Some(b) => (b.hash, b.diff, b.ts, b.prev),
            None => {
                let a = *ch.genesis_hash;
                match self.truth.iter().find(|b| b.hash == a) {
                    Some(b) => (b.hash, BEGINNING_DIFFICULTY, b.ts, b.prev),
                    None => {
                        self.die(&["C04", "C12"], "deriv-anchor-missing", format!("node {i}: the anchor of {o} is not a main chain block"));
                        return;
                    }
                }
            }
        };
        let Some(p) = mine(&prev, &merkle(&[]), lz(&diff), Pow::Good, (o as u64) << 32 | t.len() as u64, &p2) else {
            return;
        };
        let ts = shift(pts, dt);
        let r = {
            let (rt, t) = (self.rt.as_ref().unwrap(), self.n[i as usize].tree.as_mut().unwrap());
            attempt(|| rt.block_on(t.emmit_new_derivative_block(&p, &addr(o + 2), ts)))
        };
        let crashed = self.crashed(i);
        let b = match r {
            Out::Ok(b) => blk_of(&*b, true),
            r => {
                if !crashed {
                    self.die(&["C11", "C12", "C04"], "emission-refused", format!("node {i}: derivative block {} of {o}: {}", t.len(), r.why()));
                }
                return;
            }
        };
        drop(ch);
        let h = t.len() as u64;
        hist(|| format!("node {i} emits derivative {o} block {h}"));
        probe("derivative_emitted");
        if !crashed {
            // the anchor first
            if self.flush(i) {
                self.n[i as usize].dheight.insert(o, h + 1);
                if self.flush_deriv(i, o) {
                    self.dtruth.entry(o).or_default().push(b);
                    for j in 0..self.nodes() {
                        if j != i && !self.stop() {
                            self.send_deriv(i, j, o, h);
                        }
                    }
                    return;
                }
                self.n[i as usize].dheight.insert(o, h);
            }
            if self.stop() {
                return;
            }
        }
        self.ddoubt.insert(o, b);
    }

    // -------------------------------------------------------------- steps
    fn step(&mut self, s: &Step) {
        let nn = self.nodes();
        match &s.op {
            Op::NetBlock { dt, ntx } => self.emit(s.c % nn, *dt, *ntx, false),
            Op::NetDeriv { owner, dt } => self.demit(*owner % OWNERS, *dt),
            Op::NetTx { at, from, to, v, salt, data, copies } => self.inject(*at % nn, *from, *to, v, *salt, *data, *copies),
            Op::Tick { n } => {
                for _ in 0..*n {
                    if self.stop() || !self.deliver_next() {
                        break;
                    }
                }
                let (a, b) = (self.net.below(nn as u64) as u8, self.net.below(nn as u64) as u8);
                if a != b && self.up(a) && !self.stop() {
                    self.announce(a, b);
                }
            }
            Op::Sleep { ms } => {
                os::sleep_ns(*ms as u64 * 1_000_000);
                os::progress();
            }
            Op::Part { mask } => {
                self.part = *mask & ((1 << nn) - 1);
                probe("net:partition");
            }
            Op::Heal => self.part = 0,
            Op::NodeCrash { n, spec } => {
                let i = *n % nn;
                if !self.up(i) || self.n[i as usize].pending.is_some() {
                    return;
                }
                if let Some(k) = spec.after {
                    os::arm_crash(&dsk(i), k.max(1), spec.mode, spec.seed, spec.before);
                }
                self.n[i as usize].pending = Some((spec.clone(), spec.span));
            }
            Op::NodeRestart { n } => self.restart(*n % nn),
            Op::NodeFlush { n } => {
                let i = *n % nn;
                if self.up(i) {
                    self.flush(i);
                    for o in 0..OWNERS {
                        if !self.stop() && !self.crashed(i) && self.n[i as usize].dheight.get(&o).copied().unwrap_or(0) > 0 {
                            self.flush_deriv(i, o);
                        }
                    }
                }
            }
            Op::Forge { kind, salt } => self.forge(*kind, *salt),
            Op::Garble { kind, salt } => self.garble(*kind, *salt),
            _ => {}
        }
        os::progress();
    }
    #[allow(clippy::too_many_arguments)]
    fn inject(&mut self, at: u8, from: u8, to: u8, v: &Amt, salt: u32, data: u8, copies: u8) {
        let (from, to) = (from % ACCOUNTS, to % ACCOUNTS);
        let n = &self.n[at as usize];
        let x = resolve(v, n.coins[&from], n.coins[&to]);
        let d = match data % 4 {
            _ if data > 250 => Some((0..super::s1::LARGE[data as usize - 251]).map(|k| (k % 251) as u8).collect()),
            0 => None,
            1 => Some(vec![data; [1, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1000][salt as usize % 25]]),
            2 => Some(vec![data; data as usize]),
            _ => Some((0..data).map(|k| k ^ 0xA5).collect()),
        };
        let d = d.filter(|d| !d.is_empty());
        let k = &self.keys[from as usize];
        let t = match attempt(|| Transaction::new(k.pk, self.acct(to), 1_600_000_000 + salt as u64, x, k.sk, d.clone())) {
            Out::Ok(t) => t,
            r => {
                self.die(&["C13"], "transaction-new", r.why());
                return;
            }
        };
        let dump = t.dump().unwrap();
        let hash = sha(&[&dump]);
        if t.hash() != hash {
            self.die(&["C13"], "decoded-value-differs", "a new transaction's hash is not its dump's".into());
            return;
        }
        let i = match self.txs.iter().position(|t| t.hash == hash) {
            Some(i) => i,
            None => {
                self.txs.push(TxRec { from, to, x, dump: dump.clone(), hash });
                self.txs.len() - 1
            }
        };
        // the client hands it to one node and that node's peers hear of it, some more than once
        for j in 0..self.nodes() {
            for c in 0..copies.clamp(1, 4) {
                if j == at || c == 0 || self.net.pct(50) {
                    self.send(at, j, Body::Tx { i }, dump.clone(), hash);
                }
            }
        }
        if self.seen.len() < 12 {
            self.seen.push(dump);
        }
    }

    /// an altered copy of an honest block must not validate against its predecessor
    fn forge(&mut self, kind: u8, salt: u32) {
        let mut r = Rng::new(salt as u64, 4711);
        let d: Vec<(u8, usize)> = self.dtruth.iter().filter(|x| x.1.len() > 1).map(|x| (*x.0, x.1.len())).collect();
        let deriv = !d.is_empty() && r.pct(35);
        let (prev, blk) = if deriv {
            let (o, n) = *r.pick(&d);
            let h = r.range(1, n as u64 - 1) as usize;
            (self.dtruth[&o][h - 1].clone(), self.dtruth[&o][h].clone())
        } else {
            if self.truth.len() < 2 {
                return;
            }
            let h = r.range(1, self.truth.len() as u64 - 1) as usize;
            (self.truth[h - 1].clone(), self.truth[h].clone())
        };
        let p: BlockArc = match decode(&prev.dump) {
            Some(p) => p,
            None => return,
        };
        let Some(f) = Fields::of(&blk.dump) else { return };
        let mut g = f.clone();
        let what = match kind % 8 {
            0 => {
                g.prev[some_byte(&mut r)] ^= 1 << r.below(8);
                "predecessor link"
            }
            1 => {
                // another honest block's link
                let o = r.pick(&self.truth).hash;
                g.prev = o;
                "predecessor link"
            }
            2 => {
                g.diff[some_byte(&mut r)] ^= 1 << r.below(8);
                "difficulty"
            }
            3 if r.pct(30) => {
                // the gap after which the difficulty stays, rises or falls
                g.ts = match r.below(4) {
                    0 => prev.ts.saturating_add(r.range(590, 610)),
                    1 => prev.ts.saturating_sub(r.range(0, 700)),
                    2 => f.ts ^ 1 << r.below(64),
                    _ => prev.ts.saturating_add(600),
                };
                "timestamp"
            }
            3 => {
                g.diff = *r.pick(&[EASIEST, prev.diff, retarget(0, 0, &f.diff), retarget(0, 601, &f.diff), [0xFF; 32], [0; 32]]);
                "difficulty"
            }
            4 => {
                let b = some_byte(&mut r);
                g.pow[b] ^= 1 << r.below(8);
                "proof of work"
            }
            5 => {
                r.fill(&mut g.pow);
                if r.pct(30) {
                    g.pow = [0; 32];
                }
                "proof of work"
            }
            _ => {
                if f.kind != 2 || f.txs.is_empty() {
                    return;
                }
                let n = g.txs.len() as u64;
                match r.below(10) {
                    8 | 9 => g.root[some_byte(&mut r)] ^= 1 << r.below(8),
                    0 => {
                        g.txs.remove(r.below(n) as usize);
                    }
                    1 => g.txs.insert(r.below(n + 1) as usize, sha(&[&salt.to_be_bytes()])),
                    2 => {
                        let k = r.below(n) as usize;
                        g.txs[k] = sha(&[&salt.to_be_bytes()]);
                    }
                    3 => {
                        let (a, b) = (r.below(n) as usize, r.below(n) as usize);
                        g.txs.swap(a, b);
                    }
                    4 => {
                        let k = r.below(n) as usize;
                        let x = g.txs[k];
                        g.txs.push(x);
                    }
                    5 => {
                        let k = r.below(n) as usize;
                        g.txs[k][some_byte(&mut r)] ^= 1 << r.below(8);
                    }
                    6 => g.txs.clear(),
                    _ => g.txs.reverse(),
                }
                if g.txs != f.txs && r.pct(30) {
                    g.root = merkle(&g.txs);
                }
                "transaction list"
            }
        };
        if g == f {
            return;
        }
        // the forger may have worked for it
        if !what.starts_with("proof") && r.pct(60) {
            if let Some(w) = mine(&g.prev, &merkle(&g.txs), lz(&prev.diff), Pow::Good, salt as u64, &[9; 32]) {
                g.pow = w;
            }
        }
        // by the reference rules, is the altered block one that may validate?
        let link = g.prev == prev.hash;
        let work = pow_ok(&g.prev, &prev.diff, &merkle(&g.txs), &g.pow);
        let diff = g.diff == retarget(prev.ts, g.ts, &prev.diff);
        let root = g.kind != 2 || g.root == merkle(&g.txs);
        if link && work && diff && root {
            if g.kind == 2 && g.txs != f.txs && g.root == f.root {
                // the Merkle function itself cannot tell the lists apart
                let b: BlockArc = g.build();
                if matches!(attempt(|| b.validate(Some(p))), Out::Ok(true)) {
                    violate(&["C12"], KNOWN_MERKLE, format!("{} transactions", f.txs.len()));
                }
            }
            return;
        }
        probe(&format!("forged:{what}"));
        let b: BlockArc = g.build();
        // once as a value, once after travelling as bytes
        let direct = attempt(|| b.validate(Some(p.clone())));
        let bytes = match attempt(|| b.dump()) {
            Out::Ok(d) => d,
            r => {
                self.die(&["C13"], "dump-failed", r.why());
                return;
            }
        };
        let wire = match decode(&bytes) {
            Some(x) => attempt(|| x.validate(Some(p.clone()))),
            None => Out::Err("undecodable".into()),
        };
        // the short form of the question: does it name that predecessor?
        match attempt(|| Ok::<_, ()>(b.verify_block(&prev.hash))) {
            Out::Ok(x) if x == link => {}
            Out::Ok(x) => {
                self.die(&["C12"], "link-misjudged", format!("verify_block says {x}, altered {what} (link {link}): {}", hexs(&bytes)));
                return;
            }
            r => {
                self.die(&["C12", "C13"], "validate-panic", format!("verify_block: {}", r.why()));
                return;
            }
        }
        for x in [direct, wire] {
            match x {
                Out::Ok(true) => {
                    self.die(&["C12"], "forged-block-validates", format!("altered {what} (link {link}, work {work}, difficulty {diff}, root {root}): {}", hexs(&bytes)));
                    return;
                }
                Out::Panic(e) => {
                    self.die(&["C12", "C13"], "validate-panic", format!("altered {what}: {e}"));
                    return;
                }
                _ => {}
            }
        }
        // and the unaltered one does
        if let Some(b) = decode(&blk.dump) {
            match attempt(|| b.validate(Some(p))) {
                Out::Ok(true) => {}
                r => {
                    let s = match r {
                        Out::Ok(_) => "false".into(),
                        r => r.why(),
                    };
                    self.die(&["C12"], "honest-block-refused", format!("an honest block does not validate against its predecessor: {s}"));
                }
            }
        }
    }
    fn garble(&mut self, kind: u8, salt: u32) {
        let mut r = Rng::new(salt as u64, 815);
        let mut pool: Vec<Vec<u8>> = self.truth.iter().rev().take(6).map(|b| b.dump.clone()).collect();
        pool.extend(self.dtruth.values().flat_map(|v| v.iter().rev().take(2)).map(|b| b.dump.clone()));
        pool.extend(self.txs.iter().take(6).map(|t| t.dump.clone()));
        let base = r.pick(&pool).clone();
        let before: Vec<u64> = self.n.iter().filter_map(|n| n.tree.as_ref()).map(|t| t.get_main_chain().get_height().as_u64()).collect();
        for _ in 0..6 {
            if self.stop() {
                return;
            }
            let x = garble(&base, kind, &mut r, &pool);
            self.damaged_value(&x);
        }
        for _ in 0..3 {
            if !self.stop() {
                self.any_value(&mut r);
            }
        }
        let after: Vec<u64> = self.n.iter().filter_map(|n| n.tree.as_ref()).map(|t| t.get_main_chain().get_height().as_u64()).collect();
        if before != after {
            self.die(&["C13"], "decoding-changed-state", format!("heights {before:?} became {after:?}"));
        }
    }

    // -------------------------------------------------------------- the end: faults stop
    fn finish(&mut self) {
        let nn = self.nodes();
        for i in 0..nn {
            os::disarm_crash(&dsk(i));
            self.n[i as usize].pending = None;
        }
        self.harvest();
        for i in 0..nn {
            if self.stop() {
                return;
            }
            if !self.up(i) {
                self.restart(i);
            }
        }
        self.part = 0;
        self.loss = 0;
        self.corrupt = 0;
        self.dup = 0;
        let goal = self.truth.len() as u64 + self.dtruth.values().map(|v| v.len() as u64).max().unwrap_or(0);
        // blocks of a derivative chain that arrive out of order have to be asked for again
        let rounds = 6 + goal;
        for round in 0..=rounds {
            if self.stop() {
                return;
            }
            let done = (0..nn).all(|i| {
                let n = &self.n[i as usize];
                n.height == self.truth.len() as u64 && self.dtruth.iter().all(|(o, v)| n.dheight.get(o).copied().unwrap_or(0) == v.len() as u64)
            });
            if done && self.q.is_empty() {
                probe("converged");
                break;
            }
            if round == rounds {
                let s: Vec<(u64, &BTreeMap<u8, u64>)> = self.n.iter().map(|n| (n.height, &n.dheight)).collect();
                let s = format!("after {rounds} exchanges without faults: heights {s:?}, agreed {} and {:?}", self.truth.len(), self.dtruth.values().map(|v| v.len()).collect::<Vec<_>>());
                self.die(&["C12"], "no-convergence", s);
                return;
            }
            for a in 0..nn {
                for b in 0..nn {
                    if a != b {
                        self.announce(a, b);
                    }
                }
            }
            let mut guard = 0;
            while !self.stop() && self.deliver_next() {
                guard += 1;
                if guard > 20_000 {
                    self.die(&["C12"], "no-convergence", "the exchange does not end".into());
                }
            }
        }
        for i in 0..nn {
            if self.stop() {
                return;
            }
            let Some((v, last)) = self.read_main(i) else { return };
            if v.len() != self.truth.len() || v.iter().zip(&self.truth).any(|(a, b)| a.dump != b.dump) || last != self.truth.last().map(|b| b.hash) {
                self.die(&["C12"], "chains-differ", format!("node {i} ends with another chain"));
                return;
            }
            for o in 0..OWNERS {
                let t = self.dtruth.get(&o).cloned().unwrap_or_default();
                if t.is_empty() {
                    continue;
                }
                let Some(v) = self.read_deriv(i, o) else { return };
                if v.len() != t.len() || v.iter().zip(&t).any(|(a, b)| a.dump != b.dump) {
                    self.die(&["C12", "C04"], "chains-differ", format!("node {i} ends with another derivative chain {o}"));
                    return;
                }
            }
        }
        // everything everybody heard is delivered to everybody once more: nothing changes
        for k in 0..self.txs.len().min(12) {
            for i in 0..nn {
                if self.stop() {
                    return;
                }
                let n = &self.n[i as usize];
                if n.present.contains(&k) && !n.open_fate.contains(&k) {
                    let t = Transaction::parse(&self.txs[k].dump[1..]).unwrap();
                    self.submit(i, k, &t);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ bytes
fn hexs(b: &[u8]) -> String {
    hex::encode(&b[..b.len().min(400)])
}
fn decode(bytes: &[u8]) -> Option<BlockArc> {
    if bytes.first() == Some(&3) {
        return match attempt(|| block::DerivativeBlock::parse(&bytes[1..])) {
            Out::Ok(b) => Some(Arc::new(b)),
            _ => None,
        };
    }
    attempt(|| block::deserialize_main_chain_block(bytes)).ok()
}
/// an independent reading of an honest block's bytes
#[derive(Clone, Debug, PartialEq)]
struct Fields {
    kind: u8,
    root: H,
    ts: u64,
    prev: H,
    pow: H,
    diff: H,
    founder: [u8; 33],
    height: U256,
    fee: U256,
    txs: Vec<H>,
}
impl Fields {
    fn of(d: &[u8]) -> Option<Fields> {
        let kind = *d.first()?;
        let mut i = 1;
        let mut take = |n: usize| -> Option<&[u8]> {
            let x = d.get(i..i + n)?;
            i += n;
            Some(x)
        };
        let root: H = if kind == 3 { [0; 32] } else { take(32)?.try_into().ok()? };
        let ts = u64::from_be_bytes(take(8)?.try_into().ok()?);
        let prev: H = take(32)?.try_into().ok()?;
        let pow: H = take(32)?.try_into().ok()?;
        let diff: H = take(32)?.try_into().ok()?;
        let founder: [u8; 33] = take(33)?.try_into().ok()?;
        let n = take(1)?[0] as usize;
        let height = U256::from_big_endian(take(n)?);
        let mut fee = U256::zero();
        let mut txs = vec![];
        if kind == 2 {
            let n = take(1)?[0] as usize;
            fee = U256::from_big_endian(take(n)?);
            while let Some(x) = take(32) {
                txs.push(x.try_into().ok()?);
            }
        }
        Some(Fields { kind, root, ts, prev, pow, diff, founder, height, fee, txs })
    }
    fn build(&self) -> BlockArc {
        let info = block::BasicInfo::new(self.ts, self.pow, self.prev, self.height, self.diff, self.founder);
        match self.kind {
            2 => Arc::new(block::TransactionBlock::new(self.fee, info, self.root, self.txs.clone())),
            3 => Arc::new(block::DerivativeBlock { default_info: info }),
            _ => Arc::new(block::SummarizeBlock { default_info: info, merkle_tree_root: self.root }),
        }
    }
}
const GARBLES: u8 = 10;
fn garble(base: &[u8], kind: u8, r: &mut Rng, pool: &[Vec<u8>]) -> Vec<u8> {
    let mut x = base.to_vec();
    let n = x.len() as u64;
    match kind % GARBLES {
        0 => x.truncate(r.below(n) as usize),
        1 => {
            // near the edges of the fixed layout
            let cut = *r.pick(&[0u64, 1, 2, 31, 32, 33, 34, 64, 65, 136, 137, 138, 139, 140, 141, 168, 169, 170, 171, 172, 173]);
            x.truncate(cut.min(n) as usize);
        }
        2 => {
            let k = r.range(1, 40);
            for _ in 0..k {
                x.push(r.next() as u8);
            }
        }
        3 => {
            for _ in 0..r.range(1, 3) {
                let i = r.below(n) as usize;
                x[i] ^= 1 << r.below(8);
            }
        }
        4 => {
            let i = r.below(n) as usize;
            x[i] = *r.pick(&[0, 1, 2, 3, 31, 32, 33, 34, 127, 128, 254, 255]);
        }
        5 => {
            // the header and the length bytes of the variable-length numbers
            let spots = [0usize, 137, 138, 139, 170, 171, 172, 173, 174, 136];
            let i = *r.pick(&spots);
            if i < x.len() {
                x[i] = *r.pick(&[0, 1, 2, 3, 4, 5, 31, 32, 33, 64, 128, 255]);
            }
        }
        6 => {
            let mut y = vec![0u8; r.below(420) as usize];
            r.fill(&mut y);
            if r.pct(70) && !y.is_empty() {
                y[0] = r.below(6) as u8;
            }
            x = y;
        }
        7 => {
            if !pool.is_empty() {
                let o = r.pick(pool).clone();
                let (a, b) = (r.below(n + 1) as usize, r.below(o.len() as u64 + 1) as usize);
                x.truncate(a);
                x.extend(&o[b..]);
            }
        }
        8 => {
            let a = r.below(n) as usize;
            let b = r.range(a as u64, n) as usize;
            x.drain(a..b);
        }
        _ => {
            // cut right after a number's length byte, or a length that reaches past the end
            let keep = r.range(1, n) as usize;
            x.truncate(keep);
            if let Some(l) = x.last_mut() {
                *l = *r.pick(&[1, 2, 8, 32, 33, 255]);
            }
        }
    }
    x
}

// ------------------------------------------------------------------ plans
pub fn generate(p: &mut Plan, r: &mut Rng) {
    let prop = p.prop.clone();
    let nodes = if prop == "C13" { r.range(1, 2) } else { *r.pick(&[2u64, 3, 3, 3, 4]) };
    p.params.insert("nodes".into(), nodes);
    p.params.insert("loss".into(), *r.pick(&[0, 0, 50_000, 200_000, 450_000]));
    p.params.insert("dup".into(), if prop == "C09" { *r.pick(&[200_000, 600_000]) } else { *r.pick(&[0, 100_000, 400_000]) });
    p.params.insert("corrupt".into(), if prop == "C13" { *r.pick(&[100_000, 400_000, 800_000]) } else { *r.pick(&[0, 0, 50_000, 250_000]) });
    p.params.insert("delay".into(), *r.pick(&[100_000, 5_000_000, 200_000_000]));
    p.params.insert("carry".into(), r.pct(50) as u64);
    if prop == "C12" && r.pct(2) {
        p.params.insert("prefill".into(), *r.pick(&[40, 255, 262]));
    }
    let len = match prop.as_str() {
        "C13" => r.range(6, 20),
        _ => r.range(10, 60),
    };
    let crashes = match prop.as_str() {
        "C12" => 45,
        "C09" => 60,
        _ => 5,
    };
    let crash_run = r.pct(crashes);
    // (weights) block, derivative, transaction, tick, crash, restart, partition, flush, forge, garble, sleep
    let w: [u64; 11] = match prop.as_str() {
        "C12" => [30, 12, 8, 30, 4, 6, 4, 6, 12, 1, 2],
        "C09" => [8, 1, 40, 30, 4, 7, 2, 8, 0, 0, 3],
        _ => [10, 6, 10, 12, 0, 1, 0, 1, 2, 40, 0],
    };
    let total: u64 = w.iter().sum();
    let scale = r.pct(6);
    let mut room = 100_000u64;
    if scale {
        p.params.insert("segment_kib".into(), 512);
    }
    let slow = r.pct(50);
    let salts = if prop == "C09" { r.range(2, 8) } else { 30 };
    let mut push = |p: &mut Plan, c: u8, op: Op| p.steps.push(Step { c, op });
    for _ in 0..len {
        let mut k = r.below(total);
        let mut which = 0;
        while k >= w[which] {
            k -= w[which];
            which += 1;
        }
        let dt = if slow {
            *r.pick(&[600, 601, 700, 5_000, 599, 0])
        } else {
            *r.pick(&[600, 601, 5_000, 5_000, 5_000, 1, 599, -50, i64::MAX / 4])
        };
        let c = r.below(nodes) as u8;
        match which {
            0 => push(p, c, Op::NetBlock { dt, ntx: {
                let k = *r.pick(&[42, 43, 85, 86, 171]);
                let cost = super::s1::many(k) * 32;
                if scale && r.pct(20) && cost <= room {
                    room -= cost;
                    k
                } else {
                    r.range(1, 6) as u8
                }
            } }),
            1 => push(p, c, Op::NetDeriv { owner: r.below(OWNERS as u64) as u8, dt }),
            2 => {
                let salt = r.below(salts) as u32;
                let fixed = prop == "C09";
                // in a C09 run the same few transactions come again and again
                let f = if fixed { sha(&[&salt.to_be_bytes(), &p.seed.to_be_bytes()]) } else { let mut b = [0; 32]; r.fill(&mut b); b };
                let v = match f[3] % 10 {
                    0 if !fixed => Amt::Bal,
                    1 => Amt::Zero,
                    2 if !fixed => Amt::BalPlus1,
                    3 => Amt::Pow2(f[4]),
                    _ => Amt::N(1 + f[5] as u64 * 700),
                };
                push(p, c, Op::NetTx { at: c, from: f[0], to: f[1], v, salt, data: if scale && f[6] % 4 == 0 { gen::big(r, &mut room) } else { f[2] % 80 }, copies: r.range(1, 4) as u8 });
            }
            3 => push(p, c, Op::Tick { n: r.range(1, 12) as u8 }),
            4 if crash_run => {
                let mut spec = gen::crash(r, 0);
                spec.reopen.clear();
                if spec.after.is_some() {
                    spec.after = Some(*r.pick(&[1, 2, 3, 5, 8, 13, 20, 30, 45]));
                    spec.span = r.range(2, 14) as u8;
                }
                if r.pct(20) {
                    spec.mode = CrashMode::Kill;
                }
                push(p, c, Op::NodeCrash { n: c, spec });
            }
            5 => push(p, c, Op::NodeRestart { n: c }),
            6 => {
                if r.pct(60) {
                    push(p, c, Op::Part { mask: r.range(1, (1 << nodes) - 1) as u8 });
                } else {
                    push(p, c, Op::Heal);
                }
            }
            7 => push(p, c, Op::NodeFlush { n: c }),
            8 => push(p, c, Op::Forge { kind: r.below(16) as u8, salt: r.next() as u32 }),
            9 => push(p, c, Op::Garble { kind: r.below(GARBLES as u64) as u8, salt: r.next() as u32 }),
            10 => push(p, c, Op::Sleep { ms: r.range(50, 1200) as u32 }),
            _ => {}
        }
    }
}

/// one of the 32 bytes of a hash, the outermost more often
fn some_byte(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 0,
        1 => 31,
        _ => r.below(32) as usize,
    }
}
