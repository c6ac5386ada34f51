//! The simulated world one run lives in: disk, descriptors, clock, entropy, fault plan, scheduler.
//!
//! Everything in here is only ever touched by the thread that holds the token (see `sched`), so a
//! run is a pure function of its scenario.

use crate::rng::{hash_bytes, Rng};
use crate::simfs::{Fs, Ino};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;

pub const FD_BASE: i32 = 1 << 20;
pub const FLOCK_BASE: usize = 0x6000_0000_0000_0000;
pub const MAX_THREADS: usize = 8;

thread_local! {
    /// this thread belongs to the simulation, and which one it is
    pub static SIM_ID: Cell<i32> = const { Cell::new(-1) };
    /// which thread of the scheduler it is (a client may have several)
    pub static TID: Cell<i32> = const { Cell::new(0) };
    /// this thread is executing code of the system under test right now
    pub static IN_SUT: Cell<bool> = const { Cell::new(false) };
    /// allocations of this thread are scheduling points
    pub static ALLOC_YIELD: Cell<bool> = const { Cell::new(false) };
    /// from the next simulated call on
    pub static ALLOC_YIELD_SOON: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Open,
    Read,
    Write,
    Sync,
    Trunc,
    Chmod,
    Rename,
    Unlink,
    Link,
    Mkdir,
    Stat,
    Path,
    Seek,
    Close,
    Dir,
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Fault {
    /// the call is interrupted by a signal, `arg % 6 + 1` times in a row
    Eintr,
    Eio,
    Enospc,
    /// the disk takes `arg % 4096` more bytes during this operation, then it is full
    DiskFull,
    Emfile,
    Eacces,
    /// `arg`-dependent number of following reads / writes transfer only a part
    ShortRead,
    ShortWrite,
    /// the call takes `arg % 100_000` ms of simulated time
    Stall,
    /// the process is killed before the call (or halfway through it, if it is a write)
    Crash,
    /// the machine loses power before the call (or halfway through it)
    PowerLoss,
    /// somebody else removes / creates the file of index `arg` before the call
    Vanish,
    Appear,
}

impl Fault {
    pub fn is_hard(self) -> bool {
        matches!(self, Fault::Eio | Fault::Enospc | Fault::DiskFull | Fault::Emfile | Fault::Eacces)
    }
    pub fn is_crash(self) -> bool {
        matches!(self, Fault::Crash | Fault::PowerLoss)
    }
    fn eligible(self, c: Call) -> bool {
        use Call::*;
        match self {
            Fault::Eintr => matches!(c, Open | Read | Write | Sync | Trunc),
            Fault::Eio => matches!(c, Open | Read | Write | Sync | Trunc | Chmod | Rename | Unlink | Link | Mkdir | Stat | Path | Dir),
            Fault::Enospc => matches!(c, Write | Sync | Rename | Link | Mkdir),
            Fault::DiskFull => matches!(c, Write),
            Fault::Emfile => matches!(c, Open | Dir),
            Fault::Eacces => matches!(c, Open | Rename | Unlink | Link | Mkdir | Stat | Chmod | Path | Dir),
            Fault::ShortRead => matches!(c, Read),
            Fault::ShortWrite => matches!(c, Write),
            Fault::Stall | Fault::Crash | Fault::PowerLoss | Fault::Vanish | Fault::Appear => true,
        }
    }
}

/// A planned fault: fires once, at the first call of kind `kind.eligible` that is (at least) the
/// `at`-th simulated call of operation `op`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FaultSpec {
    pub op: u32,
    pub at: u32,
    pub kind: Fault,
    pub arg: u64,
}

#[derive(Clone, Debug)]
pub struct Fd {
    pub ino: Ino,
    pub pos: usize,
    pub flags: i32,
    pub path: String,
}

/// what happened during the current operation of a thread
#[derive(Clone, Debug, Default)]
pub struct OpCtx {
    pub op: u32,
    pub calls: u32,
    pub hard: u32,
    pub soft: u32,
    pub full: Option<usize>,
    pub short_reads: u32,
    pub short_writes: u32,
    pub eintr: Option<(Call, u32)>,
    pub short_arg: u64,
    /// paths looked up (stat or open), and whether that worked
    pub lookups: Vec<(String, bool)>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub calls: u64,
    pub faults: BTreeMap<String, u64>,
    pub switches: u64,
    pub yields: u64,
    pub blocked: u64,
    pub sim_ns: u64,
    pub probes: BTreeMap<String, u64>,
}

pub struct World {
    pub fs: Fs,
    pub fds: BTreeMap<i32, Fd>,
    pub next_fd: i32,
    pub clock: u64,
    pub ent: Rng,
    pub pid: u64,
    pub faults: Vec<FaultSpec>,
    pub fired: Vec<bool>,
    pub ctx: Vec<OpCtx>,
    /// what is left on the disk after the crash; the calls that still run are those of a dead process
    pub crashed: Option<Fs>,
    pub pending_crash: Option<(Fault, u64)>,
    pub env_paths: Vec<String>,
    pub stats: Stats,
    pub trace: u64,
    pub log: Option<Vec<String>>,
    pub sched: crate::sched::Sched,
    pub dirs: BTreeMap<usize, (Vec<String>, usize)>,
    /// inode -> (descriptors holding it, exclusive)
    pub locks: BTreeMap<Ino, (Vec<i32>, bool)>,
    /// paths the code under test created files at
    pub made: Vec<String>,
}

static mut WORLD: Option<Box<World>> = None;

pub fn world() -> &'static mut World {
    #[allow(static_mut_refs)]
    unsafe {
        WORLD.as_mut().expect("no simulated world")
    }
}

pub fn set_world(w: World) {
    TID.set(0);
    #[allow(static_mut_refs)]
    unsafe {
        WORLD = Some(Box::new(w));
    }
}

pub fn take_world() -> World {
    #[allow(static_mut_refs)]
    unsafe {
        *WORLD.take().expect("no simulated world")
    }
}

impl World {
    pub fn new(entropy: u64, faults: Vec<FaultSpec>) -> World {
        let n = faults.len();
        World {
            fs: Fs::new(),
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            clock: 1_600_000_000_000_000_000,
            ent: Rng::new(entropy ^ 0x5eed),
            pid: crate::rng::mix(entropy ^ 0x91d),
            faults,
            fired: vec![false; n],
            ctx: vec![OpCtx::default(); MAX_THREADS],
            crashed: None,
            pending_crash: None,
            env_paths: vec![],
            stats: Stats::default(),
            trace: 0,
            log: None,
            sched: crate::sched::Sched::new(1, vec![]),
            dirs: BTreeMap::new(),
            locks: BTreeMap::new(),
            made: vec![],
        }
    }

    pub fn note(&mut self, s: &str) {
        self.trace = hash_bytes(self.trace, s.as_bytes());
        if let Some(l) = &mut self.log {
            if l.len() < 2000 {
                l.push(s.to_string());
            }
        }
    }

    pub fn probe(&mut self, s: &str) {
        *self.stats.probes.entry(s.to_string()).or_default() += 1;
    }

    /// starts operation `op` on thread `t`
    pub fn begin(&mut self, t: usize, op: u32, what: &str) {
        self.ctx[t] = OpCtx { op, ..Default::default() };
        self.note(&format!("t{t} op{op} {what}"));
    }

    fn count_fault(&mut self, t: usize, f: Fault, call: Call) {
        *self.stats.faults.entry(format!("{f:?}")).or_default() += 1;
        if f.is_hard() {
            self.ctx[t].hard += 1;
        } else {
            self.ctx[t].soft += 1;
        }
        let n = self.ctx[t].calls;
        self.note(&format!("  t{t} FAULT {f:?} at call {n} ({call:?})"));
    }

    /// Called at the start of every simulated call. `Err(errno)` makes it fail.
    pub fn enter(&mut self, t: usize, call: Call, what: &str) -> Result<(), i32> {
        self.stats.calls += 1;
        self.clock += 37_000;
        self.ctx[t].calls += 1;
        let n = self.ctx[t].calls;
        let c = self.crashed.is_some();
        if self.log.is_some() {
            self.note(&format!("  t{t} #{n} {what}{}", if c { " (dead)" } else { "" }));
        } else {
            self.trace = hash_bytes(self.trace ^ ((t as u64) << 32 | call as u64), what.as_bytes());
        }
        if c {
            return Ok(());
        }
        if let Some((c, left)) = self.ctx[t].eintr {
            if c == call && left > 0 {
                self.ctx[t].eintr = Some((c, left - 1));
                return Err(libc::EINTR);
            }
            self.ctx[t].eintr = None;
        }
        let op = self.ctx[t].op;
        for i in 0..self.faults.len() {
            if self.fired[i] {
                continue;
            }
            let f = self.faults[i].clone();
            if f.op != op || n < f.at || !f.kind.eligible(call) {
                continue;
            }
            // crashes inside writes are applied by the write itself, see `torn`
            self.fired[i] = true;
            self.count_fault(t, f.kind, call);
            match f.kind {
                Fault::Eintr => {
                    let more = (f.arg % 6) as u32;
                    self.ctx[t].eintr = Some((call, more));
                    return Err(libc::EINTR);
                }
                Fault::Eio => return Err(libc::EIO),
                Fault::Enospc => return Err(libc::ENOSPC),
                Fault::DiskFull => self.ctx[t].full = Some((f.arg % 4096) as usize),
                Fault::Emfile => return Err(libc::EMFILE),
                Fault::Eacces => return Err(libc::EACCES),
                Fault::ShortRead => {
                    self.ctx[t].short_reads = 1 + (f.arg % 40) as u32;
                    self.ctx[t].short_arg = f.arg;
                }
                Fault::ShortWrite => {
                    self.ctx[t].short_writes = 1 + (f.arg % 40) as u32;
                    self.ctx[t].short_arg = f.arg;
                }
                Fault::Stall => self.clock += (f.arg % 100_000) * 1_000_000,
                Fault::Crash | Fault::PowerLoss => {
                    if call == Call::Write && f.arg & 1 == 1 {
                        // halfway through the write
                        self.pending_crash = Some((f.kind, f.arg));
                    } else {
                        self.crash(f.kind, f.arg);
                    }
                }
                Fault::Vanish => {
                    if let Some(p) = self.env_paths.get(f.arg as usize).cloned() {
                        self.fs.remove(&p);
                    }
                }
                Fault::Appear => {
                    if let Some(p) = self.env_paths.get(f.arg as usize).cloned() {
                        if !self.fs.exists(&p) {
                            self.fs.put(&p, b"x");
                        }
                    }
                }
            }
            break;
        }
        Ok(())
    }

    /// tries to take (or gives back) the advisory lock of a file
    pub fn flock(&mut self, ino: Ino, fd: i32, op: i32) -> Result<(), usize> {
        let l = self.locks.entry(ino).or_default();
        l.0.retain(|f| *f != fd);
        let mut r = Ok(());
        if op & libc::LOCK_EX != 0 {
            if l.0.is_empty() {
                *l = (vec![fd], true);
            } else {
                r = Err(ino);
            }
        } else if op & libc::LOCK_SH != 0 {
            if l.0.is_empty() || !l.1 {
                l.0.push(fd);
                l.1 = false;
            } else {
                r = Err(ino);
            }
        }
        if op & libc::LOCK_UN != 0 {
            crate::sched::futex_wake(FLOCK_BASE + ino, u32::MAX);
        }
        r
    }

    /// a closed descriptor gives its lock back
    pub fn unlock_closed(&mut self, fd: i32) {
        for (ino, l) in self.locks.iter_mut() {
            let n = l.0.len();
            l.0.retain(|f| *f != fd);
            if n != l.0.len() {
                crate::sched::futex_wake(FLOCK_BASE + *ino, u32::MAX);
            }
        }
    }

    fn crash(&mut self, kind: Fault, arg: u64) {
        self.crashed = Some(match kind {
            Fault::Crash => self.fs.process_crash(),
            _ => self.fs.power_loss(&mut Rng::new(arg)),
        });
    }

    /// how many of `len` bytes a read transfers
    pub fn read_len(&mut self, t: usize, len: usize) -> usize {
        let c = &mut self.ctx[t];
        if c.short_reads > 0 && len > 1 {
            c.short_reads -= 1;
            c.short_arg = crate::rng::mix(c.short_arg);
            return 1 + (c.short_arg as usize % (len - 1).min(97));
        }
        len
    }

    /// how many of `len` bytes a write to `ino` at `off` transfers
    pub fn write_len(&mut self, t: usize, ino: Ino, off: usize, len: usize) -> Result<usize, i32> {
        let size = self.fs.inodes[ino].data.len();
        let c = &mut self.ctx[t];
        let mut n = len;
        if c.short_writes > 0 && len > 1 {
            c.short_writes -= 1;
            c.short_arg = crate::rng::mix(c.short_arg);
            n = 1 + (c.short_arg as usize % (len - 1).min(97));
        }
        if self.crashed.is_some() {
            return Ok(n);
        }
        if let Some(left) = c.full {
            let grow = (off + n).saturating_sub(size);
            if grow > left {
                let can = n.saturating_sub(grow - left);
                if can == 0 {
                    return Err(libc::ENOSPC);
                }
                n = can;
            }
            let grow = (off + n).saturating_sub(size);
            c.full = Some(left - grow);
        }
        Ok(n)
    }

    /// applies a crash that was planned for the middle of this write
    pub fn torn(&mut self, ino: Ino, off: usize, bytes: &[u8]) {
        if let Some((kind, arg)) = self.pending_crash.take() {
            let cut = (arg >> 1) as usize % (bytes.len() + 1);
            let live = self.fs.clone();
            self.fs.write_at(ino, off, &bytes[..cut]);
            self.crash(kind, arg);
            self.fs = live;
        }
    }

    /// ends the operation; if the process died during it, the disk is what survived
    pub fn end(&mut self) -> bool {
        if self.crashed.is_some() {
            crate::sched::drain();
        }
        if let Some(fs) = self.crashed.take() {
            self.fs = fs;
            self.fds.clear();
            self.dirs.clear();
            self.locks.clear();
            self.note("restart");
            true
        } else {
            false
        }
    }

    pub fn finish(&mut self) {
        self.stats.sim_ns = self.clock - 1_600_000_000_000_000_000;
        self.stats.switches = self.sched.switches;
        self.stats.yields = self.sched.steps;
        self.stats.blocked = self.sched.blocks;
    }
}

/// runs code of the system under test on the current simulated thread
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            IN_SUT.set(false);
        }
    }
    let r = {
        let _r = Reset;
        IN_SUT.set(true);
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    };
    IN_SUT.set(false);
    r.map_err(|e| {
        let m = e
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = crate::last_panic_location();
        format!("{m} ({at})")
    })
}
