//! The seeded scheduler: simulated threads are real threads of which exactly one runs at a time.
//! Who runs next is decided at yield points (simulated calls, allocations, lock operations) by the
//! list of preemptions in the scenario, never by the operating system. Threads that the code under
//! test starts itself are taken in as well (see `spawn`).

use crate::world::{world, IN_SUT, SIM_ID, TID};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone, Copy, Debug, PartialEq)]
enum State {
    Runnable,
    Blocked { addr: usize, until: Option<u64> },
    Done,
}

pub struct Sched {
    /// threads below this number are the clients of the scenario
    clients: usize,
    state: BTreeMap<usize, State>,
    timed_out: BTreeMap<usize, bool>,
    pub steps: u64,
    pub switches: u64,
    pub blocks: u64,
    gaps: Vec<(u32, u8)>,
    next_gap: usize,
    left: u32,
}

const MAX: usize = 512;
static TOKENS: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
const MAIN: usize = 8;
const FIRST_SPAWNED: usize = 9;
static NEXT: AtomicU32 = AtomicU32::new(FIRST_SPAWNED as u32);

const JOIN_BASE: usize = 0x5000_0000_0000_0000;
const SLEEP_BASE: usize = 0x5100_0000_0000_0000;

fn futex(addr: *const u32, op: i32, val: u32) {
    unsafe {
        crate::interpose::raw(libc::SYS_futex, addr as i64, (op | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
    }
}

fn give(t: usize) {
    TOKENS[t].store(1, SeqCst);
    futex(TOKENS[t].as_ptr(), libc::FUTEX_WAKE, 1);
}

fn wait(t: usize) {
    while TOKENS[t].swap(0, SeqCst) == 0 {
        futex(TOKENS[t].as_ptr(), libc::FUTEX_WAIT, 0);
    }
}

fn me() -> usize {
    TID.get() as usize
}

impl Sched {
    pub fn new(n: usize, gaps: Vec<(u32, u8)>) -> Sched {
        let left = gaps.first().map(|g| g.0).unwrap_or(0);
        Sched {
            clients: n,
            state: (0..n).map(|i| (i, State::Runnable)).collect(),
            timed_out: BTreeMap::new(),
            steps: 0,
            switches: 0,
            blocks: 0,
            gaps,
            next_gap: 0,
            left,
        }
    }

    fn others(&self, id: usize) -> Vec<usize> {
        self.state.iter().filter(|(i, s)| **i != id && **s == State::Runnable).map(|(i, _)| *i).collect()
    }

    fn pick_after_stop(&mut self, id: usize, clock: &mut u64) -> Option<usize> {
        let o = self.others(id);
        if !o.is_empty() {
            // the next planned target, if any, decides
            let t = self.gaps.get(self.next_gap).map(|g| g.1 as usize).unwrap_or(0);
            return Some(o[t % o.len()]);
        }
        // nobody can run: the earliest timeout fires
        let mut best: Option<(u64, usize)> = None;
        for (i, s) in &self.state {
            if let State::Blocked { until: Some(u), .. } = s {
                if best.map_or(true, |b| *u < b.0) {
                    best = Some((*u, *i));
                }
            }
        }
        best.map(|(u, i)| {
            *clock = (*clock).max(u);
            self.state.insert(i, State::Runnable);
            self.timed_out.insert(i, true);
            i
        })
    }
}

fn switch(id: usize, t: usize) {
    let w = world();
    w.sched.switches += 1;
    w.trace = crate::rng::mix(w.trace ^ 0x5117c4 ^ ((t as u64) << 8));
    if w.log.is_some() {
        w.note(&format!("  -- t{id} -> t{t}"));
    }
    give(t);
    wait(id);
}

/// a point at which another thread may take over
pub fn yield_point() {
    if SIM_ID.get() < 0 {
        return;
    }
    let id = me();
    let s = &mut world().sched;
    s.steps += 1;
    if s.state.len() < 2 || s.next_gap >= s.gaps.len() {
        return;
    }
    if s.left > 0 {
        s.left -= 1;
        return;
    }
    let target = s.gaps[s.next_gap].1 as usize;
    s.next_gap += 1;
    s.left = s.gaps.get(s.next_gap).map(|g| g.0).unwrap_or(0);
    let o = s.others(id);
    if !o.is_empty() {
        switch(id, o[target % o.len()]);
    }
}

/// the current thread lets others run (when it polls, nothing would happen otherwise)
pub fn give_way() {
    yield_point();
    if SIM_ID.get() < 0 {
        return;
    }
    let id = me();
    let o = world().sched.others(id);
    if let Some(t) = o.iter().find(|t| **t > id).or(o.first()) {
        switch(id, *t);
    }
}

/// the current thread sleeps until this time
pub fn sleep(until: u64) {
    if SIM_ID.get() < 0 {
        return;
    }
    let w = world();
    if w.sched.state.len() < 2 {
        w.clock = w.clock.max(until);
        return;
    }
    if until > w.clock {
        futex_wait(SLEEP_BASE + me(), Some(until));
    } else {
        give_way();
    }
}

/// the simulated futex: blocks the current thread until woken
pub fn futex_wait(addr: usize, until: Option<u64>) -> i32 {
    let id = me();
    let w = world();
    w.sched.blocks += 1;
    w.sched.state.insert(id, State::Blocked { addr, until });
    w.sched.timed_out.insert(id, false);
    w.note(&format!("  t{id} waits"));
    let w = world();
    match w.sched.pick_after_stop(id, &mut w.clock) {
        None => crate::abort_run("deadlock", &format!("t{id} waits for a lock that is never released")),
        Some(t) if t == id => {}
        Some(t) => switch(id, t),
    }
    if world().sched.timed_out.get(&id) == Some(&true) {
        libc::ETIMEDOUT
    } else {
        0
    }
}

pub fn futex_wake(addr: usize, n: u32) -> u32 {
    let mut woken = 0;
    for s in world().sched.state.values_mut() {
        if woken < n && matches!(s, State::Blocked { addr: a, .. } if *a == addr) {
            *s = State::Runnable;
            woken += 1;
        }
    }
    woken
}

/// marks the current thread as finished and lets the next one run; `None` if nobody can
fn finish(id: usize) {
    let w = world();
    w.sched.state.insert(id, State::Done);
    let c = w.sched.clients;
    if id < c && w.sched.state.range(..c).all(|s| *s.1 == State::Done) {
        give(MAIN);
        return;
    }
    match w.sched.pick_after_stop(id, &mut w.clock) {
        Some(t) => give(t),
        None => crate::abort_run("deadlock", "a thread waits for a lock that is never released"),
    }
}

// ---------------------------------------------------------------- threads of the code under test

/// a new thread, started by the current one on behalf of the same client
pub fn spawn() -> Option<usize> {
    let id = NEXT.fetch_add(1, SeqCst) as usize;
    if id >= MAX {
        return None;
    }
    let w = world();
    w.sched.state.insert(id, State::Runnable);
    if w.sched.next_gap >= w.sched.gaps.len() {
        // no preemptions were planned
        let mut r = w.ent.fork();
        w.sched.gaps = (0..60).map(|_| (r.below(12) as u32, r.below(4) as u8)).collect();
        w.sched.next_gap = 0;
        w.sched.left = w.sched.gaps[0].0;
    }
    w.note(&format!("  t{} starts t{id}", me()));
    w.probe("thread started by the code under test");
    Some(id)
}

/// life of a thread that the code under test started
pub fn spawned<T>(id: usize, client: i32, alloc_yield: bool, f: impl FnOnce() -> T) -> T {
    TID.set(id as i32);
    wait(id);
    SIM_ID.set(client);
    // not before the first simulated call: the start of a thread holds a lock of the standard library
    crate::world::ALLOC_YIELD_SOON.set(alloc_yield);
    IN_SUT.set(true);
    let r = f();
    IN_SUT.set(false);
    SIM_ID.set(-1);
    futex_wake(JOIN_BASE + id, u32::MAX);
    finish(id);
    // what is left of its life happens while it is being joined
    wait(id);
    r
}

/// waits until this thread has finished
pub fn join(id: usize) {
    yield_point();
    while matches!(world().sched.state.get(&id), Some(s) if *s != State::Done) {
        futex_wait(JOIN_BASE + id, None);
    }
    give(id);
}

/// The process is dead: its threads run out their lives on the disk of the dead.
pub fn drain() {
    let id = me();
    for _ in 0..100_000 {
        match world().sched.others(id).into_iter().find(|t| *t >= FIRST_SPAWNED) {
            Some(t) => switch(id, t),
            None => break,
        }
    }
    world().sched.state.retain(|t, _| *t < FIRST_SPAWNED);
}

/// Runs the given clients as simulated threads until all of them are done.
pub fn run_threads(clients: Vec<Box<dyn FnOnce(usize) + Send>>, gaps: Vec<(u32, u8)>, first: usize, alloc_yield: bool) {
    let n = clients.len();
    let mut s = Sched::new(n, gaps);
    s.state.extend(world().sched.state.iter().filter(|t| *t.0 >= FIRST_SPAWNED).map(|(t, s)| (*t, *s)));
    world().sched = s;
    for t in TOKENS.iter().take(FIRST_SPAWNED) {
        t.store(0, SeqCst);
    }
    let mut handles = vec![];
    for (i, c) in clients.into_iter().enumerate() {
        handles.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    SIM_ID.set(i as i32);
                    TID.set(i as i32);
                    crate::world::ALLOC_YIELD.set(alloc_yield);
                    wait(i);
                    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c(i))).is_err() {
                        crate::abort_run("harness", &format!("harness panic: {}", crate::last_panic_location()));
                    }
                    debug_assert!(!IN_SUT.get());
                    SIM_ID.set(-1);
                    finish(i);
                    wait(i);
                })
                .expect("spawn"),
        );
    }
    give(first % n);
    wait(MAIN);
    for (i, h) in handles.into_iter().enumerate() {
        give(i);
        let _ = h.join();
    }
}
