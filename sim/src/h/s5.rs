//! Engine S5: copies of folders, made through a disk that splits, interrupts, fails and fills up,
//! by a process that may be killed meanwhile. The oracle is the source folder itself; a copied node
//! must open as the node it was copied from.
use super::gen;
use super::plan::*;
use super::model::addr;
use super::s1::make_tx;
use super::s4;
use super::world::*;
use crate::os::{self, class, rng::Rng, vfs::CrashMode, FaultRule};
use blockchaintree::block::{BasicInfo, TransactionBlock};
use blockchaintree::blockchaintree::BlockChainTree;
use std::sync::Arc;
use blockchaintree::tools;
use blockchaintree::transaction::Transactionable;
use primitive_types::U256;
use std::collections::{BTreeMap, BTreeSet};

const DISK: &str = "n0";
const SRC: &str = "/sim/n0/src";
const FILES: [&[u8]; 15] = [
    b"f",
    b"a/f",
    b"a/g",
    b"a/b/f",
    b"a/b/c/d/e/f",
    b"a/b/a name with blanks.and.dots",
    b".hidden",
    b"a/.hidden",
    b"c/0",
    "c/\u{e9}\u{4e2d}".as_bytes(),
    b"MAIN/BLOCKS/db",
    b"f.new",
    b"a/not \xFF text",
    b"\xC3/\x80f",
    b"a/\xED\xA0\x80",
];
const FOLDERS: [&str; 4] = ["e", "a/e", "a/b/c/e/e", "c/e"];
fn file(c: u8) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStrExt;
    std::path::Path::new(SRC).join(std::ffi::OsStr::from_bytes(FILES[c as usize % FILES.len()]))
}

/// None: a folder
type Tree = BTreeMap<String, Option<Vec<u8>>>;

struct A {
    rules: Option<(Vec<FaultRule>, Option<u64>)>,
    fatal: bool,
    node: Option<Node>,
    /// transactions the node was given
    txs: Vec<[u8; 32]>,
    /// everything the source held when it was copied
    ever: BTreeSet<String>,
}
/// what a reader sees of a node
#[derive(PartialEq, Debug, Clone)]
struct Node {
    blocks: Vec<Vec<u8>>,
    coins: Vec<U256>,
    gas: Vec<U256>,
    txs: Vec<Option<Vec<u8>>>,
}

fn dst(d: u8) -> String {
    format!("/sim/n0/{}", ["dst0", "x/y/dst1", "dst2"][d as usize % 3])
}
/// a folder's content, read while no fault is armed
fn tree(root: &str) -> Option<Tree> {
    fn walk(at: &std::path::Path, rel: &str, t: &mut Tree) -> std::io::Result<()> {
        for e in std::fs::read_dir(at)? {
            let e = e?;
            let (p, name) = (e.path(), e.file_name());
            let name = match name.to_str() {
                Some(n) => n.to_string(),
                None => format!("{name:?}"),
            };
            let r = if rel.is_empty() { name.clone() } else { format!("{rel}/{name}") };
            if std::fs::metadata(&p)?.is_dir() {
                t.insert(r.clone(), None);
                walk(&p, &r, t)?;
            } else {
                t.insert(r, Some(std::fs::read(&p)?));
            }
        }
        Ok(())
    }
    let mut t = Tree::new();
    walk(root.as_ref(), "", &mut t).ok().map(|_| t)
}
fn differs(a: &Tree, b: &Tree) -> String {
    let show = |x: Option<&Option<Vec<u8>>>| match x {
        None => "missing".to_string(),
        Some(None) => "a folder".into(),
        Some(Some(d)) => format!("a file of {} bytes", d.len()),
    };
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            return format!("{k} is {} instead of {}", show(b.get(k)), show(a.get(k)));
        }
    }
    "nothing".into()
}

pub fn run(p: &Plan) {
    os::mount(DISK);
    let mut a = A { rules: None, fatal: false, node: None, txs: vec![], ever: BTreeSet::new() };
    std::fs::create_dir_all(SRC).unwrap();
    for s in &p.steps {
        if a.fatal || violated() {
            break;
        }
        a.step(s.c, &s.op);
        os::progress();
    }
    if !a.fatal && !violated() {
        a.off();
        os::disarm_crash(DISK);
        // the faults are over: copying works
        for d in 0..3 {
            if !a.fatal && !violated() {
                a.copy(d);
            }
        }
        if a.node.is_some() && !a.fatal && !violated() {
            a.open_copy(p.seed as u8 % 3);
        }
    }
}
impl A {
    fn die(&mut self, class: &str, detail: String) {
        violate(&["C24"], class, detail);
        self.fatal = true;
    }
    fn on(&mut self) {
        if let Some((r, cap)) = self.rules.take() {
            os::set_rules(DISK, r);
            if let Some(c) = cap {
                let d = os::disk(DISK);
                d.capacity = d.used + c;
            }
        }
    }
    fn off(&mut self) {
        self.rules = None;
        os::clear_rules(DISK);
        os::disk(DISK).capacity = u64::MAX;
    }
    fn step(&mut self, c: u8, op: &Op) {
        match op {
            Op::Fault { rules, cap } => self.rules = Some((rules.clone(), *cap)),
            Op::Crash(s) => {
                // the process is killed in the middle of copying
                if let Some(n) = s.after {
                    os::arm_crash(DISK, n.max(1), CrashMode::Kill, s.seed, s.before);
                }
            }
            Op::CopyTree { to } => self.copy(*to),
            // the harness's own operations: no kill, no fault
            Op::Compress { size, kind, seed } => {
                os::disarm_crash(DISK);
                let f = file(c);
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::write(&f, s4::data(*size, *kind, *seed)).unwrap();
            }
            Op::Remove => {
                os::disarm_crash(DISK);
                let _ = std::fs::remove_file(file(c));
            }
            Op::Folder => {
                os::disarm_crash(DISK);
                std::fs::create_dir_all(format!("{SRC}/{}", FOLDERS[c as usize % FOLDERS.len()])).unwrap();
            }
            Op::Bulk { n, seed } => {
                os::disarm_crash(DISK);
                self.work_on_node(*n, *seed);
            }
            _ => {}
        }
    }
    fn copy(&mut self, d: u8) {
        let missing = d >= 8;
        let src = if missing { "/sim/n0/nowhere".to_string() } else { SRC.to_string() };
        let to = dst(d);
        let before = tree(SRC).unwrap();
        let old = tree(&to).unwrap_or_default();
        self.ever.extend(before.keys().cloned());
        self.on();
        let f0 = s4::faults();
        os::sim().late_readdir = true;
        let r = attempt(|| tools::copy_dir_all(&src, &to));
        os::sim().late_readdir = false;
        let fired = s4::faults() > f0;
        self.off();
        hist(|| format!("copy of {} entries to {to}: {}", before.len(), r.tag()));
        let killed = os::crashed(DISK);
        os::disarm_crash(DISK);
        if killed {
            probe("killed_while_copying");
            os::remount_after_crash(DISK);
        }
        let after = tree(SRC).unwrap();
        if after != before {
            self.die("source-changed", format!("copying changed the source: {}", differs(&before, &after)));
            return;
        }
        if killed {
            return;
        }
        match r {
            Out::Panic(e) => self.die("copy-panic", e),
            Out::Ok(()) if missing => self.die("missing-source-accepted", "a missing folder was copied".into()),
            Out::Err(_) if missing => probe("missing_source_refused"),
            Out::Ok(()) => {
                let mut want = old.clone();
                want.extend(before.clone());
                let got = tree(&to).unwrap_or_default();
                // scratch files which an earlier, failed copy left behind may be used up
                want.retain(|k, _| self.ever.contains(k) || got.contains_key(k));
                if got != want {
                    self.die("copy-incomplete", format!("after a copy that succeeded{}: {}", if fired { " although the disk failed" } else { "" }, differs(&want, &got)));
                    return;
                }
                probe(if fired { "copied_despite_fault" } else { "copied" });
                if !old.is_empty() {
                    probe("copied_over_an_older_copy");
                }
            }
            Out::Err(e) => {
                if !fired {
                    self.die("copy-refused", format!("copying {} entries without a fault failed: {e}", before.len()));
                    return;
                }
                probe("copy_failed_by_fault");
            }
        }
    }
    /// a node lives in a folder of the source for a while
    fn work_on_node(&mut self, n: u8, seed: u64) {
        let mut r = Rng::new(seed, 5);
        let t = match attempt(|| BlockChainTree::new(&format!("{SRC}/node"))) {
            Out::Ok(t) => t,
            o => {
                violate(&["C02"], "open-refused", format!("a node in the source folder: {}", o.why()));
                self.fatal = true;
                return;
            }
        };
        for _ in 0..n {
            let (a, b) = (r.range(1, 5) as u8, r.range(1, 5) as u8);
            let x = U256::from(r.range(1, 1 << 40));
            let ok = match r.below(5) {
                0 => attempt(|| t.add_amount(&addr(a), x)).is_ok(),
                1 => attempt(|| t.add_gas(&addr(a), x)).is_ok(),
                2 => {
                    let _ = attempt(|| t.send_amount(&addr(a), &addr(b), x));
                    true
                }
                3 => {
                    let h = t.get_main_chain().get_height();
                    let list: Vec<[u8; 32]> = (0..r.below(4)).map(|i| tools::hash(&[i as u8, a])).collect();
                    let info = BasicInfo::new(r.next(), [a; 32], [b; 32], h, [0x7F; 32], addr(a));
                    attempt(|| t.add_new_block(Arc::new(TransactionBlock::new(x, info, [b; 32], list)), &[])).is_ok()
                }
                _ => {
                    let tx = make_tx(a, b, x, seed as u32, r.below(200) as u8);
                    self.txs.push(tx.hash());
                    attempt(|| t.get_main_chain().add_transaction(&tx)).is_ok()
                }
            };
            if !ok {
                violate(&["C02"], "update-refused", "a node in the source folder refused an update".into());
                self.fatal = true;
                return;
            }
        }
        self.node = self.look(&t);
        hist(|| format!("node: {:?}", self.node.as_ref().map(|n| (n.blocks.len(), n.coins.clone()))));
        let _ = attempt(|| {
            drop(t);
            Ok::<_, ()>(())
        });
        probe("node_closed");
    }
    fn look(&self, t: &BlockChainTree) -> Option<Node> {
        let m = t.get_main_chain();
        let h = m.get_height().low_u64();
        let blocks = (0..h).map(|i| m.find_raw_by_height(&U256::from(i)).ok().flatten().unwrap_or_default()).collect();
        let coins = (0..6).map(|a| t.get_amount(&addr(a)).unwrap_or_default()).collect();
        let gas = (0..6).map(|a| t.get_gas(&addr(a)).unwrap_or_default()).collect();
        Some(Node { blocks, coins, gas, txs: self.txs.iter().map(|h| m.get_transaction_raw(h).ok().flatten()).collect() })
    }
    fn open_copy(&mut self, d: u8) {
        let want = self.node.clone().unwrap();
        let t = match attempt(|| BlockChainTree::new(&format!("{}/node", dst(d)))) {
            Out::Ok(t) => t,
            o => {
                self.die("copied-node-does-not-open", o.why());
                return;
            }
        };
        let got = self.look(&t);
        if got.as_ref() != Some(&want) {
            self.die("copied-node-differs", format!("{got:?} instead of {want:?}"));
        }
        probe("copied_node_opened");
        let _ = attempt(|| {
            drop(t);
            Ok::<_, ()>(())
        });
    }
}

pub fn generate(p: &mut Plan, r: &mut Rng) {
    p.knobs.short = *r.pick(&[0, 0, 50_000, 300_000, 800_000]);
    p.knobs.eintr = *r.pick(&[0, 0, 20_000, 300_000]);
    if p.knobs.short > 100_000 || p.knobs.eintr > 100_000 {
        // so many small operations need not be slow ones as well
        p.knobs.slow_io = 0;
    }
    let faults = r.pct(60);
    let node = r.pct(25);
    let big = r.pct(10);
    for k in 0..r.range(4, 16) {
        let c = r.below(FILES.len() as u64) as u8;
        let mut push = |op: Op| p.steps.push(Step { c, op });
        match r.below(10) {
            _ if k == 1 && node => push(Op::Bulk { n: r.range(0, 8) as u8, seed: r.next() }),
            0..=4 => {
                let size = match r.below(8) {
                    0 => 0,
                    1 => (1 << r.range(2, 17)) + r.below(3) - 1,
                    2 if big => r.range(100_000, 1_000_000),
                    2 | 3 => r.below(300),
                    _ => r.below(30_000),
                };
                // files change without growing or shrinking too
                let size = if r.pct(30) { 1000 } else { size };
                push(Op::Compress { size: size as u32, kind: r.below(5) as u8, seed: r.next() });
            }
            5 => push(Op::Folder),
            6 if r.pct(50) => push(Op::Remove),
            _ => {
                if faults && r.pct(60) {
                    let mut op = gen::fault(r, "C16");
                    if let Op::Fault { rules, cap } = &mut op {
                        for x in rules.iter_mut() {
                            x.path = (*r.pick(&["", "", "src", "dst", "dst", "a/", "a/b", "/f"])).into();
                            x.skip = *r.pick(&[0, 0, 1, 2, 3, 4, 6, 9]);
                            if r.pct(70) {
                                x.mask = *r.pick(&[class::WRITE, class::READ, class::OPEN, class::CREATE, class::STAT, class::READDIR, class::MKDIR, class::MUTATING]);
                            }
                        }
                        if let Some(x) = cap {
                            *x = *r.pick(&[0, 1, 100, 4096, 20_000, 131_072]);
                        }
                    }
                    push(op);
                }
                if r.pct(12) {
                    let mut s = gen::crash(r, 1);
                    s.after = Some(r.range(1, 12));
                    push(Op::Crash(s));
                }
                push(Op::CopyTree { to: if r.pct(4) { 8 } else { r.below(3) as u8 } });
            }
        }
    }
}
