//! The simulated disk: an in-memory file system with a volatile state (what the running system sees)
//! and a durable state (what survives a power loss). Knows nothing about faults or scheduling.

use crate::rng::Rng;
use std::collections::BTreeMap;

pub type Ino = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    File,
    Dir(BTreeMap<String, Ino>),
    Symlink(String),
}

#[derive(Clone, Debug)]
enum DataOp {
    Write { off: usize, bytes: Vec<u8> },
    Trunc(usize),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub data: Vec<u8>,
    pub mode: u32,
    /// content at the last sync, and everything done since then
    synced: Vec<u8>,
    pending: Vec<DataOp>,
    /// directory entries at the last point the journal was flushed
    durable_dir: BTreeMap<String, Ino>,
}

/// one atomic change of the name space
type MetaOp = Vec<(Ino, String, Option<Ino>)>;

#[derive(Clone, Debug)]
pub struct Fs {
    pub inodes: Vec<Inode>,
    journal: Vec<MetaOp>,
    /// permissions do not bind the process
    pub root: bool,
}

/// names are UTF-8; bytes that are not are kept as characters of their own (U+F700 + byte)
pub fn raw(s: &str) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    for c in s.chars() {
        match c as u32 {
            x @ 0xf700..=0xf7ff => o.push(x as u8),
            _ => o.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    o
}

pub const ROOT: Ino = 0;
pub const SECTOR: usize = 512;

fn apply(data: &mut Vec<u8>, op: &DataOp) {
    match op {
        DataOp::Write { off, bytes } => {
            if data.len() < off + bytes.len() {
                data.resize(off + bytes.len(), 0);
            }
            data[*off..off + bytes.len()].copy_from_slice(bytes);
        }
        DataOp::Trunc(n) => data.resize(*n, 0),
    }
}

impl Fs {
    pub fn new() -> Fs {
        let mut fs = Fs { inodes: vec![], journal: vec![], root: false };
        fs.inodes.push(Inode::new(Kind::Dir(BTreeMap::new()), 0o755));
        fs
    }

    pub fn alloc(&mut self, kind: Kind, mode: u32) -> Ino {
        self.inodes.push(Inode::new(kind, mode));
        self.inodes.len() - 1
    }

    fn dir(&self, ino: Ino) -> Option<&BTreeMap<String, Ino>> {
        match &self.inodes[ino].kind {
            Kind::Dir(d) => Some(d),
            _ => None,
        }
    }

    /// everything there is on the disk, whether it has a name or not
    pub fn bytes(&self) -> usize {
        self.inodes.iter().map(|n| n.data.len()).sum()
    }

    /// no single operation has a reason to make more calls than this
    pub fn call_bound(&self) -> u64 {
        100_000 + 8 * self.bytes() as u64
    }

    pub fn is_dir(&self, ino: Ino) -> bool {
        self.dir(ino).is_some()
    }

    /// applies a name space change atomically and journals it
    pub fn meta(&mut self, op: MetaOp) {
        for (dir, name, ino) in &op {
            if let Kind::Dir(d) = &mut self.inodes[*dir].kind {
                match ino {
                    Some(i) => d.insert(name.clone(), *i),
                    None => d.remove(name),
                };
            }
        }
        self.journal.push(op);
    }

    /// resolves a path (relative to the simulated root, '/'-separated) into
    /// (parent directory, last component, inode if it exists). Errors are errno values.
    pub fn lookup(&self, path: &str, follow_last: bool) -> Result<(Ino, String, Option<Ino>), i32> {
        self.lookup_from(ROOT, path, follow_last, 0)
    }

    fn lookup_from(&self, start: Ino, path: &str, follow_last: bool, depth: u32) -> Result<(Ino, String, Option<Ino>), i32> {
        if depth > 8 {
            return Err(libc::ELOOP);
        }
        let comps: Vec<&str> = path.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        if comps.is_empty() {
            return Ok((ROOT, String::new(), Some(ROOT)));
        }
        let mut stack = vec![start];
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == comps.len();
            let cur = *stack.last().unwrap();
            let d = self.dir(cur).ok_or(libc::ENOTDIR)?;
            if *c == ".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                if last {
                    return Ok((ROOT, String::new(), Some(*stack.last().unwrap())));
                }
                continue;
            }
            if c.len() > 255 && raw(c).len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            match d.get(*c) {
                None if last => return Ok((cur, c.to_string(), None)),
                None => return Err(libc::ENOENT),
                Some(&ino) => {
                    if let Kind::Symlink(t) = &self.inodes[ino].kind {
                        if !last || follow_last {
                            // link targets are absolute (inside the simulated tree) or siblings
                            let (base, t) = match t.strip_prefix(crate::interpose::PREFIX) {
                                Some(rest) => (ROOT, rest.to_string()),
                                None => (cur, t.clone()),
                            };
                            let mut rest = t;
                            for r in &comps[i + 1..] {
                                rest.push('/');
                                rest.push_str(r);
                            }
                            return self.lookup_from(base, &rest, follow_last, depth + 1);
                        }
                    }
                    if last {
                        return Ok((cur, c.to_string(), Some(ino)));
                    }
                    stack.push(ino);
                }
            }
        }
        unreachable!()
    }

    /// absolute path (inside the simulated tree) of a directory inode plus name
    pub fn path_of(&self, target: Ino) -> Option<String> {
        fn walk(fs: &Fs, at: Ino, target: Ino, path: &mut String) -> bool {
            if at == target {
                return true;
            }
            if let Some(d) = fs.dir(at) {
                for (n, &i) in d {
                    let l = path.len();
                    path.push('/');
                    path.push_str(n);
                    if walk(fs, i, target, path) {
                        return true;
                    }
                    path.truncate(l);
                }
            }
            false
        }
        let mut p = String::new();
        walk(self, ROOT, target, &mut p).then_some(p)
    }

    pub fn write_at(&mut self, ino: Ino, off: usize, bytes: &[u8]) {
        let op = DataOp::Write { off, bytes: bytes.to_vec() };
        apply(&mut self.inodes[ino].data, &op);
        self.inodes[ino].pending.push(op);
    }

    pub fn truncate(&mut self, ino: Ino, len: usize) {
        if self.inodes[ino].data.len() == len && self.inodes[ino].pending.is_empty() {
            return;
        }
        let op = DataOp::Trunc(len);
        apply(&mut self.inodes[ino].data, &op);
        self.inodes[ino].pending.push(op);
    }

    pub fn sync(&mut self, ino: Ino) {
        if self.is_dir(ino) {
            self.flush_journal();
        } else {
            let n = &mut self.inodes[ino];
            n.synced = n.data.clone();
            n.pending.clear();
        }
    }

    fn flush_journal(&mut self) {
        for op in std::mem::take(&mut self.journal) {
            for (dir, name, ino) in op {
                match ino {
                    Some(i) => self.inodes[dir].durable_dir.insert(name, i),
                    None => self.inodes[dir].durable_dir.remove(&name),
                };
            }
        }
    }

    /// makes everything durable (used by the environment, e.g. to set up a disk)
    pub fn sync_all(&mut self) {
        self.flush_journal();
        for i in 0..self.inodes.len() {
            self.sync(i);
        }
    }

    /// What is on the disk after a power loss: a prefix of the name space journal, and of every
    /// file's un-synced writes any subset, each of them possibly torn at a sector boundary.
    pub fn power_loss(&self, rng: &mut Rng) -> Fs {
        let mut fs = self.clone();
        let keep = rng.below(fs.journal.len() + 1);
        fs.journal.truncate(keep);
        fs.flush_journal();
        for n in fs.inodes.iter_mut() {
            if let Kind::Dir(_) = n.kind {
                n.kind = Kind::Dir(n.durable_dir.clone());
                continue;
            }
            let mut data = n.synced.clone();
            let mode = rng.below(4);
            for op in &n.pending {
                let keep = match mode {
                    0 => 0,             // nothing of it reached the disk
                    1 => 2,             // everything did
                    _ => rng.below(4),  // anything
                };
                match (keep, op) {
                    (0, _) => {}
                    // the file size is updated, the data isn't
                    (1, DataOp::Write { off, bytes }) => {
                        let end = off + bytes.len();
                        if data.len() < end {
                            data.resize(end, 0);
                        }
                    }
                    // torn at a sector
                    (3, DataOp::Write { off, bytes }) => {
                        let sectors = bytes.len().div_ceil(SECTOR);
                        let cut = (rng.below(sectors + 1) * SECTOR).min(bytes.len());
                        apply(&mut data, &DataOp::Write { off: *off, bytes: bytes[..cut].to_vec() });
                    }
                    (_, op) => apply(&mut data, op),
                }
            }
            n.data = data;
        }
        fs.sync_all();
        fs
    }

    /// what is on the disk after the process was killed: everything it did
    pub fn process_crash(&self) -> Fs {
        self.clone()
    }

    // ---- conveniences for the environment (never subject to faults) ----

    pub fn put(&mut self, path: &str, data: &[u8]) {
        self.mkdirs(path.rsplit_once('/').map(|x| x.0).unwrap_or(""));
        let (dir, name, ino) = self.lookup(path, true).expect("env put");
        let ino = match ino {
            Some(i) => i,
            None => {
                let i = self.alloc(Kind::File, 0o644);
                self.meta(vec![(dir, name, Some(i))]);
                i
            }
        };
        self.truncate(ino, 0);
        self.write_at(ino, 0, data);
    }

    /// where a path that exists is, without links on the way
    pub fn canonical(&self, path: &str) -> Option<String> {
        let (dir, name, ino) = self.lookup(path, true).ok()?;
        let ino = ino?;
        if name.is_empty() {
            return self.path_of(ino);
        }
        Some(format!("{}/{name}", self.path_of(dir)?))
    }

    /// how many names a file has
    pub fn names(&self, ino: Ino) -> u64 {
        self.inodes.iter().map(|n| match &n.kind {
            Kind::Dir(d) => d.values().filter(|i| **i == ino).count() as u64,
            _ => 0,
        }).sum::<u64>().max(1)
    }

    /// another name of a file
    pub fn hard_link(&mut self, path: &str, other: &str) {
        if let (Ok((_, _, Some(i))), Ok((dir, name, None))) = (self.lookup(other, true), self.lookup(path, false)) {
            if self.inodes[i].kind == Kind::File {
                self.meta(vec![(dir, name, Some(i))]);
            }
        }
    }

    pub fn symlink(&mut self, path: &str, target: &str) {
        let (dir, name, ino) = self.lookup(path, false).expect("env symlink");
        if ino.is_none() {
            let i = self.alloc(Kind::Symlink(target.to_string()), 0o777);
            self.meta(vec![(dir, name, Some(i))]);
        }
    }

    pub fn mkdirs(&mut self, path: &str) {
        let mut cur = String::new();
        for c in path.split('/').filter(|c| !c.is_empty()) {
            cur.push('/');
            cur.push_str(c);
            let (dir, name, ino) = self.lookup(&cur, true).expect("env mkdirs");
            if ino.is_none() {
                let i = self.alloc(Kind::Dir(BTreeMap::new()), 0o755);
                self.meta(vec![(dir, name, Some(i))]);
            }
        }
    }

    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        match self.lookup(path, true) {
            Ok((_, _, Some(i))) if self.inodes[i].kind == Kind::File => Some(&self.inodes[i].data),
            _ => None,
        }
    }

    pub fn exists(&self, path: &str) -> bool {
        matches!(self.lookup(path, true), Ok((_, _, Some(_))))
    }

    pub fn remove(&mut self, path: &str) -> bool {
        match self.lookup(path, false) {
            Ok((dir, name, Some(_))) if !name.is_empty() => {
                self.meta(vec![(dir, name, None)]);
                true
            }
            _ => false,
        }
    }

    pub fn rename(&mut self, from: &str, to: &str) -> bool {
        match (self.lookup(from, false), self.lookup(to, false)) {
            (Ok((d1, n1, Some(i))), Ok((d2, n2, _))) => {
                self.meta(vec![(d1, n1, None), (d2, n2, Some(i))]);
                true
            }
            _ => false,
        }
    }

    /// every file with its content, sorted by path
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        fn walk(fs: &Fs, at: Ino, path: &str, out: &mut BTreeMap<String, Vec<u8>>) {
            match &fs.inodes[at].kind {
                Kind::Dir(d) => {
                    for (n, &i) in d {
                        walk(fs, i, &format!("{path}/{n}"), out);
                    }
                }
                Kind::File => {
                    out.insert(path.to_string(), fs.inodes[at].data.clone());
                }
                Kind::Symlink(t) => {
                    out.insert(format!("{path}@"), t.clone().into_bytes());
                }
            }
        }
        let mut out = BTreeMap::new();
        walk(self, ROOT, "", &mut out);
        out
    }
}

impl Inode {
    fn new(kind: Kind, mode: u32) -> Inode {
        Inode { kind, data: vec![], mode, synced: vec![], pending: vec![], durable_dir: BTreeMap::new() }
    }
}
