//! In-memory file systems with an explicit durable state.
//!
//! Every node has one `Disk`.  A disk is a tree of inodes plus a journal of namespace changes
//! that are not durable yet; every file keeps its current content, its durable content and the
//! list of writes since the last sync.  `crash_image` builds the disk a machine would find
//! after a power loss (or after a mere process kill) at this moment.
use super::rng::Rng;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PAGE: usize = 4096;
pub const SECTOR: usize = 512;

#[derive(Clone, Default)]
pub struct FileData {
    pub size: u64,
    pages: BTreeMap<u64, Rc<[u8; PAGE]>>,
}

impl FileData {
    pub fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        if off >= self.size {
            return 0;
        }
        let n = ((self.size - off) as usize).min(buf.len());
        let mut done = 0;
        while done < n {
            let p = (off + done as u64) / PAGE as u64;
            let o = ((off + done as u64) % PAGE as u64) as usize;
            let l = (PAGE - o).min(n - done);
            match self.pages.get(&p) {
                Some(pg) => buf[done..done + l].copy_from_slice(&pg[o..o + l]),
                None => buf[done..done + l].fill(0),
            }
            done += l;
        }
        n
    }
    pub fn write_at(&mut self, off: u64, data: &[u8]) {
        let mut done = 0;
        while done < data.len() {
            let p = (off + done as u64) / PAGE as u64;
            let o = ((off + done as u64) % PAGE as u64) as usize;
            let l = (PAGE - o).min(data.len() - done);
            let src = &data[done..done + l];
            match self.pages.get_mut(&p) {
                Some(pg) => Rc::make_mut(pg)[o..o + l].copy_from_slice(src),
                None => {
                    if src.iter().any(|b| *b != 0) {
                        let mut pg = [0u8; PAGE];
                        pg[o..o + l].copy_from_slice(src);
                        self.pages.insert(p, Rc::new(pg));
                    }
                }
            }
            done += l;
        }
        self.size = self.size.max(off + data.len() as u64);
    }
    pub fn truncate(&mut self, len: u64) {
        if len < self.size {
            let first_gone = len.div_ceil(PAGE as u64);
            let gone: Vec<u64> = self.pages.range(first_gone..).map(|(k, _)| *k).collect();
            for k in gone {
                self.pages.remove(&k);
            }
            let o = (len % PAGE as u64) as usize;
            if o != 0 {
                if let Some(pg) = self.pages.get_mut(&(len / PAGE as u64)) {
                    Rc::make_mut(pg)[o..].fill(0);
                }
            }
        }
        self.size = len;
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.size as usize];
        self.read_at(0, &mut v);
        v
    }
    pub fn bytes_allocated(&self) -> u64 {
        (self.pages.len() * PAGE) as u64
    }
}

#[derive(Clone)]
enum Pend {
    Write { off: u64, data: Rc<[u8]> },
    Trunc(u64),
}

fn apply(d: &mut FileData, p: &Pend) {
    match p {
        Pend::Write { off, data } => d.write_at(*off, data),
        Pend::Trunc(l) => d.truncate(*l),
    }
}

#[derive(Clone)]
pub enum Node {
    File {
        data: FileData,
        durable: FileData,
        pend: Vec<PendOp>,
    },
    Dir {
        entries: BTreeMap<String, u64>,
    },
}
#[derive(Clone)]
pub struct PendOp(Pend);

#[derive(Clone)]
pub struct Inode {
    pub node: Node,
    pub open: u32,
    pub linked: bool,
    /// id of the open file description that holds the flock
    pub lock: Option<u64>,
}

#[derive(Clone, Debug)]
enum NsOp {
    Link(u64, String, u64),
    Unlink(u64, String),
    Rename(u64, String, u64, String),
}

pub type Ns = BTreeMap<u64, BTreeMap<String, u64>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum CrashMode {
    /// the process dies, the page cache survives
    Kill,
    /// the machine dies, un-synced data survives only in part
    Power,
}

#[derive(Clone)]
pub struct CrashPlan {
    pub after_ops: u64,
    pub mode: CrashMode,
    pub seed: u64,
    /// the image is taken before the operation is applied instead of after it
    pub before: bool,
}

#[derive(Default, Clone, Debug)]
pub struct CrashStats {
    pub lost_writes: u64,
    pub torn_writes: u64,
    pub lost_ns_ops: u64,
    pub files_none: u64,
    pub files_prefix: u64,
    pub files_torn: u64,
    pub files_subset: u64,
    pub files_all: u64,
}

pub struct Disk {
    pub name: String,
    pub inodes: BTreeMap<u64, Inode>,
    next_ino: u64,
    durable_ns: Ns,
    journal: Vec<NsOp>,
    /// disk operations that change something, since this disk object was mounted
    pub mutations: u64,
    pub capacity: u64,
    pub used: u64,
    pub crash: Option<CrashPlan>,
    pub image: Option<Box<Disk>>,
    pub crash_stats: CrashStats,
    /// what the operation that was interrupted did
    pub crash_op: String,
    /// where in the recorded history the crash happened
    pub crash_event: u64,
}

pub const ROOT: u64 = 1;

impl Disk {
    pub fn new(name: &str) -> Disk {
        let mut inodes = BTreeMap::new();
        inodes.insert(
            ROOT,
            Inode { node: Node::Dir { entries: BTreeMap::new() }, open: 0, linked: true, lock: None },
        );
        let mut ns = Ns::new();
        ns.insert(ROOT, BTreeMap::new());
        Disk {
            name: name.to_string(),
            inodes,
            next_ino: 2,
            durable_ns: ns,
            journal: vec![],
            mutations: 0,
            capacity: u64::MAX,
            used: 0,
            crash: None,
            image: None,
            crash_stats: CrashStats::default(),
            crash_op: String::new(),
            crash_event: 0,
        }
    }

    pub fn lookup(&self, dir: u64, comps: &[String]) -> Result<u64, i32> {
        let mut cur = dir;
        for c in comps {
            match &self.inodes[&cur].node {
                Node::Dir { entries } => match entries.get(c) {
                    Some(i) => cur = *i,
                    None => return Err(libc::ENOENT),
                },
                _ => return Err(libc::ENOTDIR),
            }
        }
        Ok(cur)
    }
    pub fn parent(&self, dir: u64, comps: &[String]) -> Result<(u64, String), i32> {
        if comps.is_empty() {
            return Err(libc::EEXIST);
        }
        let (last, init) = comps.split_last().unwrap();
        let p = self.lookup(dir, init)?;
        if !self.is_dir(p) {
            return Err(libc::ENOTDIR);
        }
        Ok((p, last.clone()))
    }
    pub fn is_dir(&self, ino: u64) -> bool {
        matches!(self.inodes[&ino].node, Node::Dir { .. })
    }
    pub fn entry(&self, dir: u64, name: &str) -> Option<u64> {
        match &self.inodes[&dir].node {
            Node::Dir { entries } => entries.get(name).copied(),
            _ => None,
        }
    }
    fn entries_mut(&mut self, dir: u64) -> &mut BTreeMap<String, u64> {
        match &mut self.inodes.get_mut(&dir).unwrap().node {
            Node::Dir { entries } => entries,
            _ => unreachable!(),
        }
    }
    pub fn list(&self, dir: u64) -> Vec<(String, u64, bool)> {
        match &self.inodes[&dir].node {
            Node::Dir { entries } => {
                entries.iter().map(|(k, v)| (k.clone(), *v, self.is_dir(*v))).collect()
            }
            _ => vec![],
        }
    }
    pub fn create(&mut self, dir: u64, name: &str, is_dir: bool) -> u64 {
        let ino = self.next_ino;
        self.next_ino += 1;
        let node = if is_dir {
            Node::Dir { entries: BTreeMap::new() }
        } else {
            Node::File { data: FileData::default(), durable: FileData::default(), pend: vec![] }
        };
        self.inodes.insert(ino, Inode { node, open: 0, linked: true, lock: None });
        self.entries_mut(dir).insert(name.to_string(), ino);
        self.journal.push(NsOp::Link(dir, name.to_string(), ino));
        ino
    }
    pub fn unlink(&mut self, dir: u64, name: &str) {
        if let Some(ino) = self.entries_mut(dir).remove(name) {
            self.inodes.get_mut(&ino).unwrap().linked = false;
            self.journal.push(NsOp::Unlink(dir, name.to_string()));
        }
    }
    pub fn rename(&mut self, d1: u64, n1: &str, d2: u64, n2: &str) {
        let ino = self.entries_mut(d1).remove(n1).unwrap();
        if let Some(old) = self.entries_mut(d2).insert(n2.to_string(), ino) {
            if old != ino {
                self.inodes.get_mut(&old).unwrap().linked = false;
            }
        }
        self.journal.push(NsOp::Rename(d1, n1.to_string(), d2, n2.to_string()));
    }
    pub fn file(&self, ino: u64) -> Option<&FileData> {
        match &self.inodes[&ino].node {
            Node::File { data, .. } => Some(data),
            _ => None,
        }
    }
    pub fn write(&mut self, ino: u64, off: u64, bytes: &[u8]) {
        if let Node::File { data, pend, .. } = &mut self.inodes.get_mut(&ino).unwrap().node {
            let before = data.bytes_allocated();
            data.write_at(off, bytes);
            let after = data.bytes_allocated();
            self.used += after - before;
            pend.push(PendOp(Pend::Write { off, data: bytes.into() }));
        }
    }
    pub fn truncate(&mut self, ino: u64, len: u64) {
        if let Node::File { data, pend, .. } = &mut self.inodes.get_mut(&ino).unwrap().node {
            let before = data.bytes_allocated();
            data.truncate(len);
            self.used -= before - data.bytes_allocated();
            pend.push(PendOp(Pend::Trunc(len)));
        }
    }
    /// A sync of one file: its content becomes durable, and (journaling file system) so do all
    /// namespace changes made so far.
    pub fn sync(&mut self, ino: u64) {
        if let Node::File { data, durable, pend } = &mut self.inodes.get_mut(&ino).unwrap().node {
            *durable = data.clone();
            pend.clear();
        }
        self.commit_ns();
    }
    /// `sync_file_range` over a whole buffer: the data is on disk; metadata as for `sync`.
    fn commit_ns(&mut self) {
        let j = std::mem::take(&mut self.journal);
        for op in &j {
            apply_ns(&mut self.durable_ns, op, &self.inodes);
        }
    }
    pub fn unsynced(&self) -> usize {
        self.inodes
            .values()
            .map(|i| match &i.node {
                Node::File { pend, .. } => pend.len(),
                _ => 0,
            })
            .sum::<usize>()
            + self.journal.len()
    }

    /// The disk found after a crash at this moment.
    pub fn crash_image(&self, mode: CrashMode, seed: u64) -> Disk {
        if mode == CrashMode::Kill {
            // the page cache outlives the process: nothing is lost, nothing becomes durable
            let mut img = Disk::new(&self.name);
            img.inodes = self.inodes.clone();
            img.inodes.retain(|_, i| i.linked || matches!(i.node, Node::Dir { .. }));
            for i in img.inodes.values_mut() {
                i.open = 0;
                i.lock = None;
            }
            // journal entries may still name files that were unlinked since
            for (k, v) in &self.inodes {
                if !img.inodes.contains_key(k)
                    && (self.journal.iter().any(|o| matches!(o, NsOp::Link(_, _, i) if i == k))
                        || self.durable_ns.values().any(|e| e.values().any(|x| x == k)))
                {
                    let mut v = v.clone();
                    v.open = 0;
                    v.lock = None;
                    img.inodes.insert(*k, v);
                }
            }
            img.next_ino = self.next_ino;
            img.durable_ns = self.durable_ns.clone();
            img.journal = self.journal.clone();
            img.capacity = u64::MAX;
            img.used = self.used;
            return img;
        }
        let mut rng = Rng::new(seed, 0xC4A5);
        let mut st = CrashStats::default();
        let mut ns = self.durable_ns.clone();
        // global flavour: 0 = all files independent, 1 = nothing un-synced survives, 2 = everything survives
        let flavour = match mode {
            CrashMode::Kill => 2,
            CrashMode::Power => match rng.below(10) {
                0..=6 => 0,
                7..=8 => 1,
                _ => 2,
            },
        };
        let keep = match flavour {
            2 => self.journal.len(),
            1 => 0,
            _ => match rng.below(4) {
                0 => 0,
                1 => self.journal.len(),
                _ => rng.below(self.journal.len() as u64 + 1) as usize,
            },
        };
        st.lost_ns_ops = (self.journal.len() - keep) as u64;
        for op in &self.journal[..keep] {
            apply_ns(&mut ns, op, &self.inodes);
        }
        let mut img = Disk::new(&self.name);
        img.inodes.clear();
        img.next_ino = self.next_ino;
        img.capacity = u64::MAX;
        // reachable
        let mut stack = vec![ROOT];
        let mut reach: BTreeMap<u64, ()> = BTreeMap::new();
        while let Some(d) = stack.pop() {
            if reach.insert(d, ()).is_some() {
                continue;
            }
            if let Some(e) = ns.get(&d) {
                stack.extend(e.values().copied());
            }
        }
        let mut dns = Ns::new();
        for ino in reach.keys() {
            let inode = &self.inodes[ino];
            let node = match &inode.node {
                Node::Dir { .. } => {
                    let e = ns.get(ino).cloned().unwrap_or_default();
                    dns.insert(*ino, e.clone());
                    Node::Dir { entries: e }
                }
                Node::File { data, durable, pend } => {
                    let fate = match flavour {
                        1 => 0,
                        2 => 4,
                        _ => rng.below(5),
                    };
                    let mut d = durable.clone();
                    if pend.is_empty() {
                        // nothing at stake
                    } else {
                        match fate {
                            0 => {
                                st.files_none += 1;
                                st.lost_writes += pend.len() as u64;
                            }
                            1 | 2 => {
                                let j = rng.below(pend.len() as u64 + 1) as usize;
                                for p in &pend[..j] {
                                    apply(&mut d, &p.0);
                                }
                                st.lost_writes += (pend.len() - j) as u64;
                                if fate == 1 {
                                    st.files_prefix += 1;
                                } else {
                                    st.files_torn += 1;
                                    if let Some(PendOp(Pend::Write { off, data })) = pend.get(j) {
                                        // torn at a sector boundary of the file
                                        let end = off + data.len() as u64;
                                        let s0 = off / SECTOR as u64;
                                        let s1 = end.div_ceil(SECTOR as u64);
                                        let cut = (s0 + rng.below(s1 - s0 + 1)) * SECTOR as u64;
                                        let cut = cut.clamp(*off, end);
                                        let n = (cut - off) as usize;
                                        if n > 0 && n < data.len() {
                                            d.write_at(*off, &data[..n]);
                                            st.torn_writes += 1;
                                        }
                                    }
                                }
                            }
                            3 => {
                                st.files_subset += 1;
                                for p in pend {
                                    match &p.0 {
                                        Pend::Write { off, data } => {
                                            let mut o = 0usize;
                                            while o < data.len() {
                                                let pos = off + o as u64;
                                                let l = (PAGE - (pos % PAGE as u64) as usize)
                                                    .min(data.len() - o);
                                                if rng.below(2) == 0 {
                                                    d.write_at(pos, &data[o..o + l]);
                                                } else {
                                                    st.lost_writes += 1;
                                                }
                                                o += l;
                                            }
                                        }
                                        Pend::Trunc(l) => d.truncate(*l),
                                    }
                                }
                            }
                            _ => {
                                st.files_all += 1;
                                d = data.clone();
                            }
                        }
                    }
                    img.used += d.bytes_allocated();
                    Node::File { data: d.clone(), durable: d, pend: vec![] }
                }
            };
            img.inodes.insert(*ino, Inode { node, open: 0, linked: true, lock: None });
        }
        img.durable_ns = dns;
        img.crash_stats = st;
        img
    }

    /// name -> content of every file below a directory (for oracles that look at the disk)
    pub fn files_under(&self, comps: &[String]) -> BTreeMap<String, Vec<u8>> {
        let mut out = BTreeMap::new();
        if let Ok(d) = self.lookup(ROOT, comps) {
            self.walk(d, String::new(), &mut out);
        }
        out
    }
    fn walk(&self, ino: u64, path: String, out: &mut BTreeMap<String, Vec<u8>>) {
        match &self.inodes[&ino].node {
            Node::File { data, .. } => {
                out.insert(path, data.to_vec());
            }
            Node::Dir { entries } => {
                for (k, v) in entries {
                    self.walk(*v, if path.is_empty() { k.clone() } else { format!("{path}/{k}") }, out);
                }
            }
        }
    }
}

fn apply_ns(ns: &mut Ns, op: &NsOp, inodes: &BTreeMap<u64, Inode>) {
    match op {
        NsOp::Link(d, n, i) => {
            if matches!(inodes[i].node, Node::Dir { .. }) {
                ns.entry(*i).or_default();
            }
            ns.entry(*d).or_default().insert(n.clone(), *i);
        }
        NsOp::Unlink(d, n) => {
            ns.entry(*d).or_default().remove(n);
        }
        NsOp::Rename(d1, n1, d2, n2) => {
            if let Some(i) = ns.entry(*d1).or_default().remove(n1) {
                ns.entry(*d2).or_default().insert(n2.clone(), i);
            }
        }
    }
}
