//! C03: several threads publish into and read from the same data files under a seeded scheduler;
//! the recorded history has to be linearizable.

use super::{bad, Prop, Verdict};
use crate::aes;
use crate::interpose::PREFIX;
use crate::rng::{mix, Rng};
use crate::sched;
use crate::world::{set_world, sut, world, Fault, FaultSpec, World};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeSet;
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// encrypts the (unique) plaintext of this operation into a target
    Put { target: usize, len: u32, rel: bool },
    Get { target: usize, rel: bool },
    /// reads and encrypts the target without writing anything
    Enc { target: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scn {
    entropy: u64,
    initial: Vec<Option<u32>>,
    /// target i is reached through a link
    link: Vec<bool>,
    clients: Vec<Vec<Op>>,
    gaps: Vec<(u32, u8)>,
    first: u8,
    faults: Vec<FaultSpec>,
    alloc_yield: bool,
}

/// operation numbers are unique: client * 100 + position
fn opno(c: usize, k: usize) -> u32 {
    (c * 100 + k) as u32
}

fn plaintext(id: u32, len: u32) -> Vec<u8> {
    let mut out = format!("v{id}:").into_bytes();
    let mut s = id as u64 + 77;
    while out.len() < len as usize {
        s = mix(s);
        out.extend_from_slice(&s.to_le_bytes());
    }
    out
}

fn target_path(i: usize, rel: bool) -> PathBuf {
    if rel {
        ["t0", "t1"][i].into()
    } else {
        format!("{PREFIX}/cwd/t{i}").into()
    }
}

fn gen(r: &mut Rng, tier: u32) -> Scn {
    let targets = if r.chance(2, 3) { 1 } else { 2 };
    let nc = r.range(2, 4);
    let max_ops = if tier > 0 { 5 } else { 4 };
    let max = [64, 300, 3000, 20000][r.below(4)];
    let clients: Vec<Vec<Op>> = (0..nc)
        .map(|_| {
            (0..r.range(1, max_ops))
                .map(|_| {
                    let t = r.below(targets);
                    let rel = r.chance(1, 5);
                    match r.below(10) {
                        0..=4 => Op::Put { target: t, len: r.below(max) as u32, rel },
                        5 => Op::Enc { target: t },
                        _ => Op::Get { target: t, rel },
                    }
                })
                .collect()
        })
        .collect();
    let alloc_yield = r.chance(1, 4);
    let ng = r.below(if alloc_yield { 60 } else { 30 });
    let span = [2, 4, 10, 40][r.below(4)];
    let gaps = (0..ng).map(|_| (r.below(span) as u32, r.below(4) as u8)).collect();
    let mut faults = vec![];
    if r.chance(1, 2) {
        let kinds = [Fault::ShortWrite, Fault::ShortRead, Fault::Eintr, Fault::Stall, Fault::Eio, Fault::Enospc, Fault::DiskFull];
        let lim = if r.chance(1, 3) { 7 } else { 4 };
        for _ in 0..r.range(1, 4) {
            let c = r.below(nc);
            let k = r.below(clients[c].len());
            faults.push(FaultSpec { op: opno(c, k), at: r.range(1, 12) as u32, kind: kinds[r.below(lim)], arg: r.next() >> 12 });
        }
    }
    Scn {
        entropy: r.next() >> 12,
        initial: (0..targets).map(|_| r.chance(3, 4).then(|| r.below(max) as u32)).collect(),
        link: (0..targets).map(|_| r.chance(1, 8)).collect(),
        clients,
        gaps,
        first: r.below(4) as u8,
        faults,
        alloc_yield,
    }
}

fn valid(s: &Scn) -> bool {
    let t = s.initial.len();
    (1..=2).contains(&t)
        && s.link.len() == t
        && (1..=6).contains(&s.clients.len())
        && s.clients.iter().map(|c| c.len()).sum::<usize>() <= 24
        && s.clients.iter().flatten().all(|o| match o {
            Op::Put { target, len, .. } => *target < t && *len < 1_000_000,
            Op::Get { target, .. } | Op::Enc { target } => *target < t,
        })
        && s.faults.iter().all(|f| !f.kind.is_crash() && !matches!(f.kind, Fault::Vanish | Fault::Appear))
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    /// the write happened
    Wrote(u32),
    /// the write failed because of an injected fault; it may or may not have happened
    MaybeWrote(u32),
    /// read version (None: no file)
    Saw(Option<u32>),
    /// the operation says nothing
    Nothing,
}

#[derive(Clone, Debug)]
struct Event {
    target: usize,
    invoked: u64,
    returned: u64,
    res: Res,
    what: String,
}

static mut HISTORY: Vec<Event> = vec![];

#[allow(static_mut_refs)]
fn history() -> &'static mut Vec<Event> {
    unsafe { &mut HISTORY }
}

static mut SEQ: u64 = 0;
fn tick() -> u64 {
    unsafe {
        SEQ += 1;
        SEQ
    }
}

/// Wing & Gong with memoisation over (set of done operations, register value)
fn linearizable(ev: &[Event], init: Option<u32>) -> bool {
    fn go(ev: &[Event], done: u32, val: Option<u32>, seen: &mut BTreeSet<(u32, Option<u32>)>) -> bool {
        if done.count_ones() as usize == ev.len() {
            return true;
        }
        if !seen.insert((done, val)) {
            return false;
        }
        // nothing that returned before another pending one was invoked may come later
        let min_ret = (0..ev.len()).filter(|i| done & (1 << i) == 0 && !matches!(ev[*i].res, Res::MaybeWrote(_))).map(|i| ev[i].returned).min().unwrap_or(u64::MAX);
        for i in 0..ev.len() {
            if done & (1 << i) != 0 || ev[i].invoked > min_ret {
                continue;
            }
            let d = done | 1 << i;
            let ok = match &ev[i].res {
                Res::Wrote(v) => go(ev, d, Some(*v), seen),
                Res::MaybeWrote(v) => go(ev, d, Some(*v), seen) || go(ev, d, val, seen),
                Res::Saw(v) => *v == val && go(ev, d, val, seen),
                Res::Nothing => go(ev, d, val, seen),
            };
            if ok {
                return true;
            }
        }
        false
    }
    go(ev, 0, init, &mut BTreeSet::new())
}

fn run(s: &Scn) -> Verdict {
    let log = world().log.take();
    let mut w = World::new(s.entropy, s.faults.clone());
    w.log = log;
    for d in ["/cwd", "/src", "/real", "/tmp"] {
        w.fs.mkdirs(d);
    }
    // version 9000 + i is the initial content of target i
    let mut versions: Vec<(u32, Vec<u8>)> = vec![];
    for (i, init) in s.initial.iter().enumerate() {
        if let Some(len) = init {
            let p = plaintext(9000 + i as u32, *len);
            if s.link[i] {
                w.fs.put(&format!("/real/t{i}"), &aes::encrypt(&p));
                w.fs.symlink(&format!("/cwd/t{i}"), &format!("{PREFIX}/real/t{i}"));
            } else {
                w.fs.put(&format!("/cwd/t{i}"), &aes::encrypt(&p));
            }
            versions.push((9000 + i as u32, p));
        }
    }
    for (c, ops) in s.clients.iter().enumerate() {
        for (k, o) in ops.iter().enumerate() {
            if let Op::Put { len, .. } = o {
                let p = plaintext(opno(c, k), *len);
                w.fs.put(&format!("/src/{}", opno(c, k)), &p);
                versions.push((opno(c, k), p));
            }
        }
    }
    w.fs.sync_all();
    set_world(w);
    history().clear();
    let versions: &'static Vec<(u32, Vec<u8>)> = Box::leak(Box::new(versions));
    static mut FAIL: Option<(String, String)> = None;
    fn fail(class: &str, msg: String) {
        #[allow(static_mut_refs)]
        unsafe {
            if FAIL.is_none() {
                FAIL = Some((class.into(), msg));
            }
        }
    }
    let attribute = |b: &[u8]| versions.iter().find(|v| v.1 == b).map(|v| v.0);

    let mut clients: Vec<Box<dyn FnOnce(usize) + Send>> = vec![];
    for (c, ops) in s.clients.iter().cloned().enumerate() {
        clients.push(Box::new(move |t| {
            for (k, o) in ops.into_iter().enumerate() {
                let id = opno(c, k);
                world().begin(t, id, &format!("{o:?}"));
                let invoked = tick();
                sched::yield_point();
                let (target, res) = match &o {
                    Op::Put { target, rel, .. } => {
                        let src = PathBuf::from(format!("{PREFIX}/src/{id}"));
                        let dst = target_path(*target, *rel);
                        let r = sut(|| swrs::encrypt_sw_file_to_file(&src, Some(&dst)));
                        let hard = world().ctx[t].hard > 0;
                        let res = match r {
                            Err(p) => {
                                fail("panic", format!("op {id}: {p}"));
                                Res::Nothing
                            }
                            Ok(Ok(())) => Res::Wrote(id),
                            Ok(Err(e)) => {
                                if !hard {
                                    fail("spurious-error", format!("op {id}: publishing failed without an injected fault: {e:?}"));
                                }
                                Res::MaybeWrote(id)
                            }
                        };
                        (*target, res)
                    }
                    Op::Get { target, .. } | Op::Enc { target } => {
                        let get = matches!(o, Op::Get { .. });
                        let p = target_path(*target, matches!(o, Op::Get { rel: true, .. }));
                        let r = sut(|| if get { swrs::decrypt_sw_file(&p) } else { swrs::encrypt_sw_file(&p) });
                        let hard = world().ctx[t].hard > 0;
                        let r = r.map(|r| {
                            if get {
                                r
                            } else {
                                // take the outer layer off again
                                r.map(|b| aes::decrypt(&b).and_then(|b| aes::decrypt(&b)).unwrap_or(b))
                            }
                        });
                        let res = match r {
                            Err(p) => {
                                fail("panic", format!("op {id}: {p}"));
                                Res::Nothing
                            }
                            Ok(Ok(b)) => match attribute(&b) {
                                Some(v) => Res::Saw(Some(v)),
                                None => {
                                    fail("torn-read", format!("op {id}: read {} bytes that nobody published", b.len()));
                                    Res::Nothing
                                }
                            },
                            Ok(Err(swrs::CryptoError::IOError(e))) if e.kind() == std::io::ErrorKind::NotFound && !hard => Res::Saw(None),
                            Ok(Err(e)) => {
                                if !hard {
                                    fail("spurious-error", format!("op {id}: reading failed without an injected fault: {e:?}"));
                                }
                                Res::Nothing
                            }
                        };
                        (*target, res)
                    }
                };
                let w = world();
                w.note(&format!("t{t} op{id} => {res:?}"));
                if w.ctx[t].calls as u64 > w.fs.call_bound() {
                    fail("unbounded", format!("op {id} took {} calls", w.ctx[t].calls));
                }
                let returned = tick();
                history().push(Event { target, invoked, returned, res, what: format!("t{t} op{id} {o:?}") });
                sched::yield_point();
            }
        }));
    }
    crate::world::SIM_ID.set(-1);
    sched::run_threads(clients, s.gaps.clone(), s.first as usize, s.alloc_yield);
    crate::world::SIM_ID.set(0);
    #[allow(static_mut_refs)]
    if let Some(f) = unsafe { FAIL.take() } {
        return Err(f);
    }
    let w = world();
    let mut overlaps = 0;
    let h = history().clone();
    for (i, a) in h.iter().enumerate() {
        for b in &h[..i] {
            if a.target == b.target && a.invoked < b.returned && b.invoked < a.returned {
                overlaps += 1;
            }
        }
    }
    if overlaps > 0 {
        w.probe("overlapping calls on one target");
    }
    for t in 0..s.initial.len() {
        let mut ev: Vec<Event> = h.iter().filter(|e| e.target == t).cloned().collect();
        // what is there in the end
        let end = match w.fs.get(&format!("/cwd/t{t}")) {
            None => None,
            Some(b) => match aes::decrypt(b).and_then(|p| attribute(&p)) {
                Some(v) => Some(v),
                None => return bad("torn-final", format!("target {t} ends up with content nobody published")),
            },
        };
        let now = tick();
        ev.push(Event { target: t, invoked: now, returned: now, res: Res::Saw(end), what: "final state".into() });
        let init = s.initial[t].map(|_| 9000 + t as u32);
        if ev.iter().any(|e| matches!(e.res, Res::MaybeWrote(_))) {
            w.probe("failed publication");
        }
        if !linearizable(&ev, init) {
            let mut d = format!("target {t}, initially {init:?}:");
            for e in &ev {
                d.push_str(&format!(" [{}..{} {} -> {:?}]", e.invoked, e.returned, e.what, e.res));
            }
            return bad("not-linearizable", d);
        }
    }
    Ok(())
}

pub struct Conc;

impl Prop for Conc {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn runs(&self, tier: u32) -> u64 {
        [60_000, 800_000][tier as usize]
    }
    fn gen(&self, rng: &mut Rng, tier: u32) -> Value {
        serde_json::to_value(gen(rng, tier)).unwrap()
    }
    fn valid(&self, scn: &Value) -> bool {
        serde_json::from_value::<Scn>(scn.clone()).map_or(false, |s| valid(&s))
    }
    fn run(&self, scn: &Value) -> Verdict {
        run(&serde_json::from_value::<Scn>(scn.clone()).expect("scenario"))
    }
    fn rule(&self) -> &'static str {
        "A scenario is 2 to 4 threads publishing unique plaintexts into and reading one or two data files, a list of preemptions (after how many yield points, to which thread) and a fault plan; yield points are all file system calls, lock operations and, in a quarter of the runs, allocations."
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Threads switch at file system calls, lock operations and allocations only; code between two of those runs atomically.".into()]
    }
    fn expected_probes(&self) -> &'static [&'static str] {
        &["overlapping calls on one target", "failed publication"]
    }
}
