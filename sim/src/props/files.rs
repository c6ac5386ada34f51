//! C01 and C02: the file operations of the library on a simulated disk with faults, crashes and
//! power losses, against an independent AES and a model of what every file may contain.

use super::{bad, Prop, Verdict};
use crate::aes;
use crate::interpose::PREFIX;
use crate::rng::{mix, Rng};
use crate::simfs::{raw, Fs, Kind};
use crate::world::{sut, world, Fault, FaultSpec, World};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use swrs::CryptoError;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Content {
    pub len: u32,
    pub seed: u64,
    /// 0 text, 1 binary, 2 ciphertext, 3 aligned garbage, 4 unaligned garbage, 5 the ciphertext of a text, damaged in one place
    pub form: u8,
    /// 1 equal blocks, 2 ends like padding, 3 byte order mark, line ends and zeros, 4 zeros only
    #[serde(default)]
    pub pat: u8,
    /// the second half is different with another tail
    #[serde(default)]
    pub tail: u64,
}

impl Content {
    pub fn gen(r: &mut Rng, max: usize) -> Content {
        let len = match r.below(10) {
            0 => 0,
            1 => 1,
            2 => r.below(40),
            3 => 16 * r.below(6),
            4 => 16 * r.range(1, 6) - 1,
            5 => [511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193][r.below(9)].min(max),
            6 => r.below(max + 1),
            _ => r.below(900.min(max) + 1),
        };
        // contents that start alike, or are the same, are likely to meet
        let alike = r.chance(1, 4);
        Content {
            len: if alike { [48, 64, 640, 5000][r.below(4)].min(max) as u32 } else { len as u32 },
            seed: if alike { r.below(2) as u64 } else { r.next() >> 12 },
            form: if alike { [0, 0, 2, 5][r.below(4)] } else { [0, 0, 1, 2, 2, 2, 3, 4][r.below(8)] },
            pat: if !alike && r.chance(1, 5) { r.range(1, 4) as u8 } else { 0 },
            tail: if alike { r.below(3) as u64 } else { 0 },
        }
    }

    pub fn plain(&self) -> Vec<u8> {
        let mut s = self.seed;
        let mut out = Vec::with_capacity(self.len as usize + 8);
        while out.len() < self.len as usize {
            s = mix(s);
            out.extend_from_slice(&s.to_le_bytes());
        }
        out.truncate(self.len as usize);
        if self.tail != 0 {
            let h = out.len() / 2;
            let mut t = self.tail;
            for b in out[h..].iter_mut() {
                t = mix(t);
                *b ^= t as u8;
            }
        }
        let n = out.len();
        match self.pat {
            1 => (16..n).for_each(|i| out[i] = out[i - 16]),
            2 => {
                let k = 1 + (self.seed % 16) as usize;
                out[n - k.min(n)..].fill(k as u8);
                return out;
            }
            3 => {
                for (o, b) in out.iter_mut().zip(b"\xef\xbb\xbf\r\n\0\r\n\n\r\0\0") {
                    *o = *b;
                }
                if n > 0 {
                    out[n - 1] = [0, b'\n', b'\r', 26, b' '][(self.seed % 5) as usize];
                }
                return out;
            }
            4 => {
                out.fill(0);
                return out;
            }
            _ => {}
        }
        if self.form == 0 {
            for b in out.iter_mut() {
                *b = b' ' + *b % 94;
            }
        }
        out
    }

    pub fn bytes(&self) -> Vec<u8> {
        match self.form {
            2 => aes::encrypt(&self.plain()),
            5 => {
                let mut e = aes::encrypt(&Content { form: 0, ..*self }.plain());
                let h = mix(self.seed ^ (self.len as u64) << 32 ^ self.tail.wrapping_mul(77));
                let n = e.len();
                let at = match h % 3 {
                    0 => (h >> 8) as usize % 16,
                    1 => n - 1 - (h >> 8) as usize % 16,
                    _ => (h >> 8) as usize % n,
                };
                e[at] ^= 1 << (h >> 40) % 8;
                e
            }
            3 => {
                let mut c = Content { len: self.len.div_ceil(16) * 16, ..*self };
                c.form = 1;
                c.plain()
            }
            4 => {
                let mut p = self.plain();
                if p.len() % 16 == 0 {
                    p.push(7);
                }
                p
            }
            _ => self.plain(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Node {
    Absent,
    File {
        c: Content,
        ro: bool,
        /// nobody may read it
        #[serde(default)]
        hid: bool,
    },
    Dir,
    Link { to: usize, rel: bool },
    /// another name of a file
    Hard { to: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    EncTo { src: usize, dst: Option<usize>, spell: u8 },
    Enc { src: usize, spell: u8 },
    Dec { src: usize, spell: u8 },
    /// somebody else replaces a file and syncs
    Env { node: usize, c: Content },
    /// somebody has a file of their own where the library once had a file that is gone
    Decoy { n: u32, c: Content },
    /// the machine loses power while nothing is going on
    PowerLoss { seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scn {
    entropy: u64,
    nodes: Vec<Node>,
    /// unusual file names
    #[serde(default)]
    names: u64,
    /// the process may do anything
    #[serde(default)]
    root: bool,
    ops: Vec<Op>,
    faults: Vec<FaultSpec>,
}

const PATHS: [&str; 10] = [
    "/cwd/plain.txt", "/cwd/project", "/data/logic", "/data/view", "/data/sub/file", "/cwd/out", "/data/resource", "/cwd/sub/lib", "/data/x.tmp",
    "/nowhere/file",
];

fn paths(s: &Scn) -> Vec<String> {
    (0..s.nodes.len())
        .map(|i| {
            let p = PATHS[i];
            if s.names == 0 {
                return p.to_string();
            }
            let h = mix(s.names ^ i as u64);
            let dir = p.rsplit_once('/').unwrap().0;
            let name = match h % 14 {
                0 => "n".repeat(254),
                1 => "n".repeat(220 + (h >> 8) as usize % 35),
                2 => "\u{e9}".repeat(127),
                3 => "\u{1f600}".repeat(50 + (h >> 8) as usize % 13),
                4 => "bad\u{f7ff}\u{f780}".into(),
                5 => format!("{}\u{f7c3}", "n".repeat(253)),
                6 => " a b\n".into(),
                7 => ".hidden".into(),
                8 => "-n".into(),
                9 => "{}%s$HOME*?.tmp".into(),
                10 => "..".into(),
                11 => "a.".into(),
                _ => return p.to_string(),
            };
            format!("{dir}/{name}{i}")
        })
        .collect()
}

fn spell(path: &str, how: u8) -> PathBuf {
    use std::os::unix::ffi::OsStringExt;
    let s = match how {
        1 if path.starts_with("/cwd/") => path[5..].into(),
        2 => format!("{PREFIX}/./data/../{}", &path[1..]),
        3 => format!("{PREFIX}/{path}"),
        4 if path.starts_with("/data/") => format!("{PREFIX}/dl{}", &path[5..]),
        4 if path.starts_with("/cwd/") => format!("./up/{}", &path[1..]),
        _ => format!("{PREFIX}{path}"),
    };
    std::ffi::OsString::from_vec(raw(&s)).into()
}

fn gen(r: &mut Rng, c01: bool, tier: u32) -> Scn {
    let max = if r.chance(1, 40) { 300_000 } else if r.chance(1, 6) { 20_000 } else { 2000 };
    let n = r.range(2, if c01 { 6 } else { 5 });
    let mut nodes: Vec<Node> = vec![];
    for i in 0..n {
        nodes.push(match r.below(12) {
            0 | 1 => Node::Absent,
            2 if r.chance(1, 2) => Node::Dir,
            3 if r.chance(1, 3) => Node::File { c: Content::gen(r, max), ro: true, hid: r.chance(1, 6) },
            4 if i > 0 => Node::Link { to: r.below(i), rel: r.chance(1, 2) },
            5 if i > 0 && r.chance(1, 3) => Node::Hard { to: r.below(i) },
            _ => Node::File { c: Content::gen(r, max), ro: false, hid: r.chance(1, 40) },
        });
    }
    // large files, of sizes around which programs start to do something else
    let large = r.chance(1, 150);
    if large {
        nodes.truncate(3);
        let len = (1usize << r.range(13, 21)) * r.range(1, 2) + r.below(36) - 18;
        nodes[0] = Node::File { c: Content { len: len as u32, form: [0, 1, 2, 2][r.below(4)], ..Content::gen(r, 100) }, ro: false, hid: false };
    }
    if r.chance(1, 10) {
        while nodes.len() < PATHS.len() {
            nodes.push(Node::Absent);
        }
    }
    let n = nodes.len();
    let nops = if tier > 0 && r.chance(1, 4) { r.range(2, 14) } else { r.range(1, 5) };
    let mut ops = vec![];
    for _ in 0..nops {
        let sp = [0, 0, 1, 1, 2, 3, 4][r.below(7)];
        let from = if large && r.chance(3, 4) { 0 } else { r.below(n) };
        let kind = if c01 { [0, 0, 0, 0, 0, 1, 2, 3, 4][r.below(9)] } else { [0, 0, 1, 1, 2, 2, 2, 3][r.below(8)] };
        ops.push(match kind {
            0 => Op::EncTo { src: from, dst: if r.chance(1, 4) { None } else { Some(r.below(n)) }, spell: sp },
            1 => Op::Enc { src: from, spell: sp },
            2 => Op::Dec { src: from, spell: sp },
            3 => Op::Env { node: r.below(n), c: Content::gen(r, max) },
            _ => Op::PowerLoss { seed: r.next() >> 12 },
        });
    }
    // the same target again, beside files of others with names that were used before
    if r.chance(1, 6) {
        let at = r.below(ops.len());
        if let Op::EncTo { .. } = ops[at] {
            let again = ops[at].clone();
            ops.insert(at + 1, Op::Decoy { n: r.below(2) as u32, c: Content::gen(r, max.min(2000)) });
            ops.insert(at + 2, again);
            if r.chance(1, 3) {
                ops.push(Op::PowerLoss { seed: r.next() >> 12 });
            }
        }
    }
    let nops = ops.len();
    // each run has its own mix of fault kinds
    use Fault::*;
    let all: &[Fault] = if c01 {
        &[Eio, Enospc, DiskFull, Emfile, Eacces, Crash, Crash, PowerLoss, PowerLoss, PowerLoss, Eintr, ShortRead, ShortWrite, Stall]
    } else {
        &[Eio, Enospc, DiskFull, Emfile, Eacces, Eintr, Eintr, ShortRead, ShortRead, ShortWrite, ShortWrite, Stall]
    };
    let enabled: Vec<Fault> = (0..r.range(1, 4)).map(|_| *r.pick(all)).collect();
    let nf = match r.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        _ => r.range(1, nops + 2),
    };
    let calls: Vec<usize> = (0..nops).filter(|i| !matches!(ops[*i], Op::Env { .. } | Op::PowerLoss { .. } | Op::Decoy { .. })).collect();
    let nf = if calls.is_empty() { 0 } else { nf };
    let faults = (0..nf)
        .map(|_| {
            let op = *r.pick(&calls);
            // mostly where there is a call
            let most = if matches!(ops[op], Op::EncTo { .. }) { 16 } else { 6 };
            let at = if r.chance(1, 8) { r.range(1, 24) } else { r.range(1, most) };
            FaultSpec { op: op as u32, at: at as u32, kind: *r.pick(&enabled), arg: r.next() >> 12 }
        })
        .collect();
    let names = if r.chance(1, 4) { r.next() >> 12 | 1 } else { 0 };
    Scn { entropy: r.next() >> 12, nodes, names, root: r.chance(1, 3), ops, faults }
}

fn valid(s: &Scn) -> bool {
    let n = s.nodes.len();
    n > 0
        && n <= PATHS.len()
        && s.nodes.iter().enumerate().all(|(i, x)| match x {
            Node::Link { to, .. } | Node::Hard { to } => *to < i,
            Node::File { c, .. } => c.len < 5_000_000,
            _ => true,
        })
        && s.ops.iter().all(|o| match o {
            Op::EncTo { src, dst, .. } => *src < n && dst.map_or(true, |d| d < n),
            Op::Enc { src, .. } | Op::Dec { src, .. } => *src < n,
            Op::Env { node, c } => *node < n && c.len < 5_000_000,
            Op::PowerLoss { .. } => true,
            Op::Decoy { c, .. } => c.len < 5_000_000,
        })
        && s.faults.iter().all(|f| !matches!(f.kind, Fault::Vanish | Fault::Appear))
}

/// what a path refers to
#[derive(Clone, Debug, PartialEq)]
enum Is {
    File { data: Vec<u8>, readable: bool, writable: bool },
    Dir,
    /// nothing; whether a file could be created there
    Nothing { creatable: bool },
    /// a link to nothing
    Dangling,
}

fn what(fs: &Fs, path: &str) -> Is {
    match fs.lookup(path, true) {
        Err(_) => Is::Nothing { creatable: false },
        Ok((_, _, Some(i))) => match &fs.inodes[i].kind {
            Kind::Dir(_) => Is::Dir,
            _ => {
                let m = if fs.root { 0o777 } else { fs.inodes[i].mode };
                Is::File { data: fs.inodes[i].data.clone(), readable: m & 0o400 != 0, writable: m & 0o200 != 0 }
            }
        },
        Ok((_, _, None)) => match fs.lookup(path, false) {
            Ok((_, _, Some(_))) => Is::Dangling,
            Ok((_, n, None)) => Is::Nothing { creatable: !n.is_empty() },
            _ => Is::Nothing { creatable: false },
        },
    }
}

/// everything (files and links) except what `target` is or stands for
fn others(fs: &Fs, target: Option<&str>) -> BTreeMap<String, Vec<u8>> {
    let mut m = fs.files();
    if let Some(t) = target {
        m.remove(t);
        m.remove(&format!("{t}@"));
        if let Some(p) = fs.canonical(t) {
            m.remove(&p);
        }
        if let Ok((d, n, None)) = fs.lookup(t, true) {
            if let Some(p) = fs.path_of(d) {
                m.remove(&format!("{p}/{n}"));
            }
        }
        // links in between
        let mut p = t.to_string();
        for _ in 0..8 {
            match fs.lookup(&p, false) {
                Ok((d, _, Some(i))) => {
                    if let Kind::Symlink(to) = &fs.inodes[i].kind {
                        m.remove(&format!("{p}@"));
                        p = match to.strip_prefix(PREFIX) {
                            Some(x) => x.to_string(),
                            None => format!("{}/{to}", fs.path_of(d).unwrap_or_default()),
                        };
                        m.remove(&p);
                        continue;
                    }
                    break;
                }
                _ => break,
            }
        }
    }
    m
}

/// every complete content a path has had since everything was last known to be on the disk
struct History(BTreeMap<String, Vec<Option<Vec<u8>>>>);

impl History {
    fn reset(&mut self, fs: &Fs) {
        self.0 = fs.files().into_iter().map(|(k, v)| (k, vec![Some(v)])).collect();
    }
    fn record(&mut self, fs: &Fs) {
        let now = fs.files();
        for (k, h) in self.0.iter_mut() {
            let v = now.get(k).cloned();
            if h.last() != Some(&v) {
                h.push(v);
            }
        }
        for (k, v) in now {
            self.0.entry(k).or_insert_with(|| vec![None, Some(v)]);
        }
    }
    fn allows(&self, path: &str, now: Option<&Vec<u8>>) -> bool {
        match self.0.get(path) {
            None => true,
            Some(h) => h.iter().any(|x| x.as_ref() == now),
        }
    }
}

fn short(b: &[u8]) -> String {
    let h: String = b.iter().take(8).map(|x| format!("{x:02x}")).collect();
    format!("{} bytes {h}..", b.len())
}

fn io_class(e: &CryptoError) -> &'static str {
    match e {
        CryptoError::IOError(_) => "io",
        CryptoError::DecryptionError(_) => "decryption",
        CryptoError::FromUtf8Error(_) => "utf8",
    }
}

fn run(s: &Scn) -> Verdict {
    let log = world().log.take();
    let mut w = World::new(s.entropy, s.faults.clone());
    w.log = log;
    let fs = &mut w.fs;
    for d in ["/cwd", "/cwd/sub", "/data", "/data/sub", "/tmp"] {
        fs.mkdirs(d);
    }
    fs.symlink("/dl", &format!("{PREFIX}/data"));
    fs.symlink("/cwd/up", PREFIX);
    let paths = paths(s);
    for (i, n) in s.nodes.iter().enumerate() {
        let p = paths[i].as_str();
        if p.starts_with("/nowhere") {
            continue;
        }
        match n {
            Node::Absent => {}
            Node::Dir => fs.mkdirs(p),
            Node::File { c, ro, hid } => {
                fs.put(p, &c.bytes());
                let i = fs.lookup(p, true).unwrap().2.unwrap();
                fs.inodes[i].mode = 0o644 & !if *ro { 0o222 } else { 0 } & !if *hid { 0o444 } else { 0 };
            }
            Node::Link { to, rel } => {
                let t = paths[*to].as_str();
                let dir = p.rsplit_once('/').unwrap().0;
                let same = t.rsplit_once('/').unwrap().0 == dir;
                let t = if *rel && same { t.rsplit_once('/').unwrap().1.to_string() } else { format!("{PREFIX}{t}") };
                fs.symlink(p, &t);
            }
            Node::Hard { to } => fs.hard_link(p, &paths[*to]),
        }
    }
    fs.sync_all();
    fs.root = s.root;
    let mut hist = History(BTreeMap::new());
    hist.reset(&w.fs);
    crate::world::set_world(w);
    let mut decoys: Vec<String> = vec![];

    for (k, op) in s.ops.iter().enumerate() {
        let w = world();
        w.begin(0, k as u32, &format!("{op:?}"));
        match op {
            Op::Env { node, c } => {
                if let Is::File { .. } = what(&w.fs, &paths[*node]) {
                    w.fs.put(&paths[*node], &c.bytes());
                    w.fs.sync_all();
                    hist.reset(&w.fs);
                }
            }
            Op::Decoy { n, c } => {
                let gone: Vec<String> = w.made.iter().rev().filter(|p| w.fs.lookup(p, false).is_ok_and(|l| l.2.is_none())).cloned().collect();
                if let Some(p) = gone.get(*n as usize % gone.len().max(1)) {
                    w.fs.put(p, &c.bytes());
                    w.fs.sync_all();
                    hist.reset(&w.fs);
                    decoys.push(p.clone());
                    w.probe("somebody else's file under a name used before");
                }
            }
            Op::PowerLoss { seed } => {
                let after = w.fs.power_loss(&mut Rng::new(*seed));
                *w.stats.faults.entry("PowerLoss(idle)".into()).or_default() += 1;
                w.fs = after;
                power_check(k, &hist, &w.fs, &paths, &decoys)?;
                hist.reset(&w.fs);
            }
            Op::EncTo { src, dst, spell: sp } => {
                let sp_path = spell(&paths[*src], *sp);
                let target = paths[dst.unwrap_or(*src)].as_str();
                let dp_path = spell(target, sp.rotate_left(1) % 5);
                let source = what(&w.fs, &paths[*src]);
                let before = what(&w.fs, target);
                let rest = others(&w.fs, Some(target));
                let res = sut(|| swrs::encrypt_sw_file_to_file(&sp_path, dst.map(|_| dp_path.as_path())));
                let w = world();
                let ctx = w.ctx[0].clone();
                let crashed = w.crashed.is_some();
                let power = s.faults.iter().zip(&w.fired).any(|(f, x)| *x && f.op == k as u32 && f.kind == Fault::PowerLoss);
                w.end();
                let new = match &source {
                    Is::File { data, .. } => Some(aes::encrypt(data)),
                    _ => None,
                };
                let old = match &before {
                    Is::File { data, .. } => Some(data.clone()),
                    _ => None,
                };
                let now = w.fs.get(target).cloned();
                let res = match res {
                    Err(p) if !crashed => return bad("panic", format!("op {k}: {p}")),
                    Err(_) => None,
                    Ok(r) => (!crashed).then_some(r),
                };
                match &res {
                    None => {
                        w.note(&format!("=> crashed, target {}", if now == old { "old" } else { "new" }));
                        if now != old && now != new {
                            // only a power loss may bring back something even older
                            if !(power && hist.allows(target, now.as_ref())) {
                                return bad("torn-crash", format!("op {k}: after the crash the target holds neither its old content ({:?}) nor the new one ({:?}) but {:?}", old.as_deref().map(short), new.as_deref().map(short), now.as_deref().map(short)));
                            }
                        }
                        w.probe(if now == new && new.is_some() && now != old { "crash left the new content" } else { "crash left the old content" });
                    }
                    Some(Ok(())) => {
                        w.note("=> ok");
                        if new.is_none() {
                            return bad("ok-without-source", format!("op {k}: success although the source can't be read"));
                        }
                        if now != new {
                            return bad("ok-but-not-written", format!("op {k}: success, but the target holds {:?} instead of {:?}", now.as_deref().map(short), new.as_deref().map(short)));
                        }
                        if ctx.soft > 0 {
                            w.probe("success in spite of soft faults");
                        }
                    }
                    Some(Err(e)) => {
                        w.note(&format!("=> error {}", io_class(e)));
                        if now != old && now != new {
                            return bad("torn-error", format!("op {k}: failed ({e:?}), the target holds neither its old content ({:?}) nor the new one ({:?}) but {:?}", old.as_deref().map(short), new.as_deref().map(short), now.as_deref().map(short)));
                        }
                        if io_class(e) != "io" {
                            return bad("wrong-error", format!("op {k}: {e:?}"));
                        }
                        let src_ok = matches!(source, Is::File { readable: true, .. });
                        let dst_ok = match &before {
                            Is::File { writable, .. } => *writable,
                            Is::Nothing { creatable } => *creatable,
                            _ => false,
                        };
                        if src_ok && dst_ok && ctx.hard == 0 && decoys.is_empty() {
                            return bad("spurious-error", format!("op {k}: failed without reason: {e:?}"));
                        }
                        if ctx.hard > 0 {
                            w.probe("error reported");
                            if now == old {
                                w.probe("error left the old content");
                            }
                        }
                    }
                }
                check_rest(k, &w.fs, &paths, &rest, &decoys, &hist, res.is_none() && power)?;
                bound(k, &ctx, &source, new.as_ref())?;
                if res.is_none() {
                    if power {
                        hist.reset(&w.fs);
                    } else {
                        hist.record(&w.fs);
                    }
                } else {
                    hist.record(&w.fs);
                }
            }
            Op::Enc { src, spell: sp } | Op::Dec { src, spell: sp } => {
                let enc = matches!(op, Op::Enc { .. });
                let path = spell(&paths[*src], *sp);
                let source = what(&w.fs, &paths[*src]);
                let rest = w.fs.files();
                let res = sut(|| if enc { swrs::encrypt_sw_file(Path::new(&path)) } else { swrs::decrypt_sw_file(Path::new(&path)) });
                let w = world();
                let ctx = w.ctx[0].clone();
                let crashed = w.crashed.is_some();
                let power = s.faults.iter().zip(&w.fired).any(|(f, x)| *x && f.op == k as u32 && f.kind == Fault::PowerLoss);
                let untouched = w.fs.files() == rest;
                w.end();
                if !untouched {
                    return bad("read-modifies", format!("op {k}: an operation that only reads changed the disk"));
                }
                if crashed {
                    check_rest(k, &w.fs, &paths, &rest, &decoys, &hist, power)?;
                    if power {
                        hist.reset(&w.fs);
                    }
                    continue;
                }
                let res = match res {
                    Err(p) => return bad("panic", format!("op {k}: {p}")),
                    Ok(r) => r,
                };
                let want = match &source {
                    Is::File { data, readable: true, .. } => Some(if enc { Some(aes::encrypt(data)) } else { aes::decrypt(data) }),
                    _ => None,
                };
                match (&res, &want) {
                    (Ok(got), Some(Some(x))) => {
                        w.note("=> ok");
                        if got != x {
                            return bad("wrong-data", format!("op {k}: got {} instead of {}", short(got), short(x)));
                        }
                        if ctx.soft > 0 {
                            w.probe("success in spite of soft faults");
                        }
                    }
                    (Ok(_), _) => return bad("ok-without-source", format!("op {k}: success although there is nothing valid to read")),
                    (Err(e), Some(Some(_))) => {
                        w.note(&format!("=> error {}", io_class(e)));
                        if ctx.hard == 0 {
                            return bad("spurious-error", format!("op {k}: failed without reason: {e:?}"));
                        }
                        if io_class(e) != "io" {
                            return bad("wrong-error", format!("op {k}: an I/O fault was reported as {e:?}"));
                        }
                        w.probe("error reported");
                    }
                    (Err(e), Some(None)) => {
                        w.note(&format!("=> error {}", io_class(e)));
                        w.probe("invalid ciphertext refused");
                        if ctx.hard == 0 && io_class(e) != "decryption" {
                            return bad("wrong-error", format!("op {k}: an invalid ciphertext was reported as {e:?}"));
                        }
                    }
                    (Err(e), None) => {
                        w.note(&format!("=> error {}", io_class(e)));
                        if io_class(e) != "io" {
                            return bad("wrong-error", format!("op {k}: an unreadable file was reported as {e:?}"));
                        }
                    }
                }
                bound(k, &ctx, &source, None)?;
            }
        }
        if !world().fds.is_empty() {
            return bad("leak", format!("op {k} leaves a file open"));
        }
    }
    Ok(())
}

fn bound(k: usize, ctx: &crate::world::OpCtx, source: &Is, new: Option<&Vec<u8>>) -> Verdict {
    let len = match source {
        Is::File { data, .. } => data.len(),
        _ => 0,
    } + new.map_or(0, |n| n.len());
    if ctx.calls as usize > 2000 + 4 * len {
        return bad("unbounded", format!("op {k} took {} file system calls", ctx.calls));
    }
    Ok(())
}

fn ours(paths: &[String], p: &str) -> bool {
    paths.iter().any(|x| x == p || p.strip_suffix('@') == Some(x)) || p == "/dl@" || p == "/cwd/up@"
}

fn check_rest(k: usize, fs: &Fs, paths: &[String], rest: &BTreeMap<String, Vec<u8>>, decoys: &[String], hist: &History, power: bool) -> Verdict {
    let now = fs.files();
    for (p, v) in rest {
        let n = now.get(p);
        // only files the scenario set up or the library was asked to write are anybody's business
        if !ours(paths, p) && !decoys.contains(p) {
            continue;
        }
        if n != Some(v) && !(power && hist.allows(p, n)) {
            return bad("other-file", format!("op {k}: {p} had {} and now has {:?}", short(v), n.map(|x| short(x))));
        }
    }
    Ok(())
}

fn power_check(k: usize, hist: &History, fs: &Fs, paths: &[String], decoys: &[String]) -> Verdict {
    let now = fs.files();
    for p in hist.0.keys() {
        if !ours(paths, p) && !decoys.contains(p) {
            continue;
        }
        if !hist.allows(p, now.get(p)) {
            return bad("torn-power-loss", format!("op {k}: after a power loss {p} holds {:?}, which was never its complete content", now.get(p).map(|x| short(x))));
        }
    }
    Ok(())
}

pub struct FileProp {
    pub id: &'static str,
}

impl Prop for FileProp {
    fn id(&self) -> &'static str {
        self.id
    }
    fn runs(&self, tier: u32) -> u64 {
        [120_000, 1_500_000][tier as usize]
    }
    fn gen(&self, rng: &mut Rng, tier: u32) -> Value {
        serde_json::to_value(gen(rng, self.id == "C01", tier)).unwrap()
    }
    fn valid(&self, scn: &Value) -> bool {
        serde_json::from_value::<Scn>(scn.clone()).map_or(false, |s| valid(&s))
    }
    fn run(&self, scn: &Value) -> Verdict {
        run(&serde_json::from_value::<Scn>(scn.clone()).expect("scenario"))
    }
    fn rule(&self) -> &'static str {
        "A scenario is a small disk (files, directories, links, read-only and absent paths), a sequence of file operations on it and a plan of faults (kind, operation, call number)."
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "Directory changes reach the disk in order (journaled name space); un-synced file data may be lost, torn at sectors or reordered.".into(),
            "After a power loss a target may hold any complete content it had since the name space was last known to be durable.".into(),
            "Everybody else's writes are complete and durable when the library is called.".into(),
        ]
    }
    fn expected_probes(&self) -> &'static [&'static str] {
        if self.id == "C01" {
            &["crash left the new content", "crash left the old content", "error reported", "error left the old content", "success in spite of soft faults", "somebody else's file under a name used before"]
        } else {
            &["somebody else's file under a name used before", "error reported", "invalid ciphertext refused", "success in spite of soft faults"]
        }
    }
}
