//! Drives the simulation: seeds -> runs (one forked process each) -> verdicts, evidence, replay files.

use crate::props::{self, Prop, Verdict};
use crate::rng::{hash_bytes, mix};
use crate::world::{self, Stats, SIM_ID};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read};
use std::os::fd::{AsRawFd, FromRawFd};
use std::process::{Child, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunResult {
    /// class and description of the violation, if there was one
    pub bad: Option<(String, String)>,
    pub stats: Stats,
    pub trace: u64,
    pub nontrivial: bool,
    pub log: Vec<String>,
}

static mut RESULT_FD: i32 = -1;
static mut WANT_LOG: bool = false;

pub fn send_result(r: Verdict) {
    let w = world::world();
    w.finish();
    let res = RunResult {
        bad: r.err(),
        stats: w.stats.clone(),
        trace: w.trace,
        nontrivial: !w.stats.faults.is_empty() || w.stats.switches > 0 || w.stats.probes.keys().any(|k| !k.starts_with('-')),
        log: w.log.take().unwrap_or_default(),
    };
    let b = serde_json::to_vec(&res).unwrap();
    let mut at = 0;
    while at < b.len() {
        let n = unsafe { crate::interpose::raw(libc::SYS_write, RESULT_FD as i64, b.as_ptr().add(at) as i64, (b.len() - at) as i64, 0, 0, 0) };
        if n <= 0 {
            break;
        }
        at += n as usize;
    }
}

fn rlimit(what: u32, soft: u64, hard: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: soft, rlim_max: hard };
        libc::setrlimit(what, &l);
    }
}

const CPU_LIMIT: u64 = 30;

/// about how much text a scenario is
fn size(v: &Value) -> u64 {
    match v {
        Value::String(s) => s.len() as u64 + 4,
        Value::Array(a) => a.iter().map(size).sum::<u64>() + 4,
        Value::Object(o) => o.iter().map(|(k, v)| k.len() as u64 + size(v)).sum::<u64>() + 4,
        _ => 4,
    }
}
const WALL_LIMIT_MS: i32 = 240_000;

/// Runs `f` in a process forked off the current run and returns what it returns
pub fn subfork(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            panic!("harness: pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("harness: fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            let b = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(b) => b,
                Err(_) => {
                    eprintln!("harness: sub process panicked at {}", crate::last_panic_location());
                    libc::_exit(77)
                }
            };
            let mut at = 0;
            while at < b.len() {
                let n = crate::interpose::raw(libc::SYS_write, fds[1] as i64, b.as_ptr().add(at) as i64, (b.len() - at) as i64, 0, 0, 0);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = vec![];
        let mut pipe = std::fs::File::from_raw_fd(fds[0]);
        let _ = pipe.read_to_end(&mut buf);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Ok(buf)
        } else if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 77 {
            panic!("harness: sub process panicked");
        } else if libc::WIFSIGNALED(st) {
            Err(format!("the process died of signal {}", libc::WTERMSIG(st)))
        } else {
            Err(format!("the process ended with {st}"))
        }
    }
}

pub enum Case<'a> {
    Seed(u64),
    Scenario(&'a Value),
}

/// Runs one case in a forked process. `Err` is a failure of the harness itself.
pub fn run_forked(p: &dyn Prop, tier: u32, case: Case, log: bool) -> Result<RunResult, String> {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Err("pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Err("fork".into());
        }
        if pid == 0 {
            RESULT_FD = fds[1];
            WANT_LOG = log;
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY, 0);
            if !log {
                libc::dup2(null, 2);
            }
            rlimit(libc::RLIMIT_AS as u32, 6 << 30, 6 << 30);
            rlimit(libc::RLIMIT_CORE as u32, 0, 0);
            let scn = match case {
                Case::Seed(s) => p.gen(&mut crate::rng::Rng::new(s), tier),
                Case::Scenario(v) => v.clone(),
            };
            // most of it for the reference of a large project
            let cpu = CPU_LIMIT + size(&scn) / 50_000;
            rlimit(libc::RLIMIT_CPU as u32, cpu, cpu + 5);
            world::set_world(world::World::new(0, vec![]));
            if log {
                world::world().log = Some(vec![]);
            }
            // the run gets a thread of its own, like a fresh process
            let pp: &'static dyn Prop = std::mem::transmute::<&dyn Prop, &'static dyn Prop>(p);
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                SIM_ID.set(0);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pp.run(&scn)));
                world::IN_SUT.set(false);
                match r {
                    Ok(v) => send_result(v),
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        send_result(Err(("harness".into(), format!("{m} at {}", crate::last_panic_location()))))
                    }
                }
                libc::_exit(0);
            });
            let _ = h.unwrap().join();
            libc::_exit(3);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = vec![];
        let mut hung = false;
        let start = Instant::now();
        loop {
            let mut pfd = libc::pollfd { fd: f.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let left = WALL_LIMIT_MS - start.elapsed().as_millis() as i32;
            if left <= 0 {
                hung = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let n = libc::poll(&mut pfd, 1, left);
            if n > 0 {
                let mut b = [0u8; 65536];
                match f.read(&mut b) {
                    Ok(0) => break,
                    Ok(n) => buf.extend_from_slice(&b[..n]),
                    Err(_) => break,
                }
            }
        }
        let mut status = 0;
        let mut ru: libc::rusage = std::mem::zeroed();
        while libc::wait4(pid, &mut status, 0, &mut ru) < 0 {}
        if let Some(s) = std::env::var_os("VERIF_SLOW") {
            use std::io::Write;
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(s) {
                let _ = f.write_all(format!("{} {} {:?}\n", ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000, p.id(), match case { Case::Seed(s) => s, _ => 0 }).as_bytes());
            }
        }
        if let Ok(r) = parse::<RunResult>(&buf) {
            if r.bad.as_ref().map_or(false, |b| b.0 == "harness") {
                return Err(r.bad.unwrap().1);
            }
            return Ok(r);
        }
        let bad = if hung {
            ("hang".to_string(), "the run did not end".to_string())
        } else if libc::WIFSIGNALED(status) {
            match libc::WTERMSIG(status) {
                libc::SIGXCPU | libc::SIGKILL => ("hang".into(), "the run did not end within its CPU time".to_string()),
                s => ("abort".into(), format!("the process died of signal {s}")),
            }
        } else {
            return Err(format!("run ended without a result, status {status:x}"));
        };
        Ok(RunResult { bad: Some(bad), stats: Stats::default(), trace: 0, nontrivial: true, log: vec![] })
    }
}

pub fn want_log() -> bool {
    unsafe { WANT_LOG }
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(hash_bytes(seed, id.as_bytes()) ^ mix(i))
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

#[derive(Serialize, Deserialize)]
enum Line {
    Progress(u64),
    Bad { index: u64, class: String, msg: String },
    Harness { index: u64, msg: String },
    Done(Agg),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Agg {
    runs: u64,
    nontrivial: BTreeSet<u64>,
    traces: BTreeSet<u64>,
    stats: Stats,
    faulty_runs: u64,
    multi_fault_runs: u64,
    rechecked: u64,
    unrepeatable: u64,
}

impl Agg {
    fn join(&mut self, a: Agg) {
        self.runs += a.runs;
        self.rechecked += a.rechecked;
        self.unrepeatable += a.unrepeatable;
        self.faulty_runs += a.faulty_runs;
        self.multi_fault_runs += a.multi_fault_runs;
        add(&mut self.stats, &a.stats);
        self.nontrivial.extend(a.nontrivial);
        self.traces.extend(a.traces);
    }
}

fn add(a: &mut Stats, b: &Stats) {
    a.calls += b.calls;
    a.switches += b.switches;
    a.yields += b.yields;
    a.blocked += b.blocked;
    a.sim_ns += b.sim_ns;
    for (k, v) in &b.faults {
        *a.faults.entry(k.clone()).or_default() += v;
    }
    for (k, v) in &b.probes {
        *a.probes.entry(k.clone()).or_default() += v;
    }
}

fn emit(l: &Line) {
    println!("{}", serde_json::to_string(l).unwrap());
}

/// worker <prop> <tier> <seed> <k> <n> <from> <to>
fn worker(a: &[String]) -> i32 {
    let p = props::find(&a[0]).unwrap();
    let n: Vec<u64> = a[1..].iter().map(|x| x.parse().unwrap()).collect();
    let (tier, seed, k, of, from, to) = (n[0] as u32, n[1], n[2], n[3], n[4], n[5]);
    let mut agg = Agg::default();
    let mut i = from + k;
    // on a slow machine the search of the quick tier ends early rather than too late
    let start = Instant::now();
    let budget = std::time::Duration::from_secs(env_u64("VERIF_BUDGET_S", if tier == 0 { 420 } else { 1 << 30 }));
    while i < to && start.elapsed() < budget {
        let s = case_seed(seed, p.id(), i);
        match run_forked(&*p, tier, Case::Seed(s), false) {
            Err(msg) => {
                emit(&Line::Harness { index: i, msg });
                return 0;
            }
            Ok(r) => {
                agg.runs += 1;
                // a slice of the runs is done twice: the event logs have to be the same
                if i % 101 == 0 && r.bad.is_none() {
                    agg.rechecked += 1;
                    match run_forked(&*p, tier, Case::Seed(s), false) {
                        Ok(r2) if r2.trace == r.trace && r2.bad == r.bad => {}
                        Ok(r2) => {
                            // something the simulator does not control has a say in this run
                            agg.unrepeatable += 1;
                            eprintln!("case {i} (seed {s}) is not repeatable: {:x} {:x} {:?}", r.trace, r2.trace, r2.bad);
                            if let Some((class, msg)) = r2.bad {
                                emit(&Line::Bad { index: i, class, msg });
                                break;
                            }
                        }
                        Err(msg) => {
                            emit(&Line::Harness { index: i, msg });
                            return 0;
                        }
                    }
                }
                add(&mut agg.stats, &r.stats);
                agg.traces.insert(r.trace);
                if r.nontrivial {
                    agg.nontrivial.insert(r.trace);
                }
                let nf: u64 = r.stats.faults.values().sum();
                agg.faulty_runs += (nf > 0) as u64;
                agg.multi_fault_runs += (nf > 1) as u64;
                if let Some((class, msg)) = r.bad {
                    emit(&Line::Bad { index: i, class, msg });
                    break;
                }
            }
        }
        i += of;
        if agg.runs % 32 == 0 {
            emit(&Line::Progress(i));
        }
    }
    emit(&Line::Done(agg));
    0
}

struct Found {
    index: u64,
    class: String,
    msg: String,
}

fn search(p: &dyn Prop, tier: u32, seed: u64, from: u64, runs: u64, workers: u64) -> Result<(Agg, Option<Found>), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut kids: Vec<(Child, BufReader<std::process::ChildStdout>, bool)> = vec![];
    for k in 0..workers {
        let mut c = Command::new(&exe)
            .args(["worker", p.id(), &tier.to_string(), &seed.to_string(), &k.to_string(), &workers.to_string(), &from.to_string(), &runs.to_string()])
            .stdout(Stdio::piped())
            .spawn()
            .map_err(|e| e.to_string())?;
        let o = BufReader::new(c.stdout.take().unwrap());
        kids.push((c, o, false));
    }
    let mut total = Agg::default();
    let mut best: Option<Found> = None;
    let mut harness: Option<(u64, String)> = None;
    while kids.iter().any(|k| !k.2) {
        let mut pfds: Vec<libc::pollfd> = kids
            .iter()
            .map(|k| libc::pollfd { fd: if k.2 { -1 } else { k.1.get_ref().as_raw_fd() }, events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe { libc::poll(pfds.as_mut_ptr(), pfds.len() as u64, 10_000) };
        for (i, k) in kids.iter_mut().enumerate() {
            if k.2 || pfds[i].revents == 0 {
                continue;
            }
            loop {
                let mut line = String::new();
                if k.1.read_line(&mut line).unwrap_or(0) == 0 {
                    k.2 = true;
                    let _ = k.0.wait();
                    break;
                }
                match parse::<Line>(line.as_bytes()) {
                    Ok(Line::Progress(at)) => {
                        if best.as_ref().map_or(false, |b| at > b.index) {
                            let _ = k.0.kill();
                            let _ = k.0.wait();
                            k.2 = true;
                        }
                    }
                    Ok(Line::Bad { index, class, msg }) => {
                        if best.as_ref().map_or(true, |b| index < b.index) {
                            best = Some(Found { index, class, msg });
                        }
                    }
                    Ok(Line::Harness { index, msg }) => harness = Some((index, msg)),
                    Ok(Line::Done(a)) => total.join(a),
                    Err(e) => harness = Some((0, format!("worker said {line:?}: {e}"))),
                }
                if k.1.buffer().is_empty() {
                    break;
                }
            }
        }
    }
    if let Some((i, m)) = harness {
        // a violation found before the harness gave up is still a violation
        if best.is_none() {
            return Err(format!("case {i}: {m}"));
        }
    }
    Ok((total, best))
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn scenario_of(p: &dyn Prop, tier: u32, seed: u64) -> Value {
    p.gen(&mut crate::rng::Rng::new(seed), tier)
}

fn check(id: &str) -> i32 {
    let start = Instant::now();
    let p = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            return 2;
        }
    };
    let tier_name = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = (tier_name == "thorough") as u32;
    let seed = env_u64("VERIF_SEED", 1);
    let runs = env_u64("VERIF_RUNS", p.runs(tier));
    let workers = env_u64("VERIF_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8)).clamp(1, 64);
    println!("property={id} tier={tier_name} seed={seed} runs={runs} workers={workers}");
    if let Err(e) = props::selftest() {
        eprintln!("harness self test failed: {e}");
        return 2;
    }
    let mut agg = Agg::default();
    let (mut from, mut tries) = (0, 0);
    let mut code = 0;
    let mut replay_path = None;
    loop {
        let (a, found) = match search(&*p, tier, seed, from, runs, workers) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("harness error: {e}");
                return 2;
            }
        };
        agg.join(a);
        let Some(f) = found else { break };
        let cs = case_seed(seed, p.id(), f.index);
        match report(&*p, tier, seed, &f, cs) {
            Ok(path) => {
                replay_path = Some(path);
                code = 1;
                break;
            }
            // a run that ended from outside (no memory, a machine that stalls) and does well every other time
            Err(e) if tries < 3 => {
                println!("case {} (seed {cs}) failed once ({}: {}), and then not again: {e}", f.index, f.class, f.msg);
                agg.unrepeatable += 1;
                tries += 1;
                from = f.index + 1;
            }
            Err(e) => {
                eprintln!("harness error: {e}");
                code = 2;
                break;
            }
        }
    }
    let found = replay_path.is_some();
    evidence(&*p, &tier_name, tier, seed, &agg, start.elapsed().as_secs_f64(), found);
    if let Some(path) = replay_path {
        println!("VIOLATION property={} replay={}", p.id(), path);
    }
    println!(
        "property={id} runs={} distinct={} faults={} calls={} switches={} wall={:.1}s exit={code}",
        agg.runs,
        agg.traces.len(),
        agg.stats.faults.values().sum::<u64>(),
        agg.stats.calls,
        agg.stats.switches,
        start.elapsed().as_secs_f64()
    );
    code
}

/// the case again, as often as it takes
fn again(p: &dyn Prop, tier: u32, scn: &Value, log: bool) -> Result<Option<RunResult>, String> {
    for _ in 0..20 {
        let r = run_forked(p, tier, Case::Scenario(scn), log)?;
        if r.bad.is_some() {
            return Ok(Some(r));
        }
    }
    Ok(None)
}

fn report(p: &dyn Prop, tier: u32, seed: u64, f: &Found, cs: u64) -> Result<String, String> {
    let index = f.index;
    let scn = scenario_of(p, tier, cs);
    println!("case {index} (seed {cs}): {}: {}", f.class, f.msg);
    let first = again(p, tier, &scn, false)?;
    let mut small = scn.clone();
    if let Some((class, _)) = first.and_then(|r| r.bad) {
        let budget = std::time::Duration::from_secs(env_u64("VERIF_SHRINK_S", 45));
        small = crate::shrink::shrink(&scn, budget, &mut |v| {
            p.valid(v) && matches!(run_forked(p, tier, Case::Scenario(v), false), Ok(r) if r.bad.as_ref().map(|b| &b.0) == Some(&class))
        });
    } else if f.class == "abort" || f.class == "hang" {
        return Err("not repeatable".into());
    }
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("{}-{seed}-{index}.json", p.id()));
    let write = |scn: &Value, class: &str, msg: &str, trace: u64, log: &[String], sure: bool| {
        let v = json!({
            "property": p.id(), "verif_seed": seed, "index": index, "seed": cs, "tier": tier, "class": class, "message": msg, "reproduced": sure,
            "original_message": f.msg, "trace_hash": format!("{trace:016x}"), "scenario": scn, "trace": log,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).map_err(|e| e.to_string())
    };
    for c in [&small, &scn] {
        let Some(r) = again(p, tier, c, true)? else { continue };
        let (class, msg) = r.bad.clone().unwrap();
        write(c, &class, &msg, r.trace, &r.log, true)?;
        println!("minimised from {} to {} bytes: {class}: {msg}", scn.to_string().len(), c.to_string().len());
        // it has to fail the same way in a fresh process
        let out = Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output().map_err(|e| e.to_string())?;
        if out.status.code() == Some(1) {
            return Ok(path.display().to_string());
        }
    }
    // the code under test depends on something that differs between these processes, like the
    // addresses of its memory; what was seen is a violation all the same
    write(&scn, &f.class, &f.msg, 0, &[], false)?;
    println!("it does not fail every time");
    Ok(path.display().to_string())
}

/// JSON of any depth (scenarios nest as deep as the programs and layouts in them)
pub fn parse<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    let v = T::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}

fn replay(path: &str) -> i32 {
    let v: Value = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|s| parse(&s).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let p = match props::find(v["property"].as_str().unwrap_or("")) {
        Some(p) => p,
        None => return 2,
    };
    let tier = v["tier"].as_u64().unwrap_or(0) as u32;
    let r = again(&*p, tier, &v["scenario"], true).and_then(|r| match r {
        Some(r) => Ok(r),
        None => run_forked(&*p, tier, Case::Scenario(&v["scenario"]), true),
    });
    match r {
        Err(e) => {
            eprintln!("harness error: {e}");
            2
        }
        Ok(r) => {
            for l in &r.log {
                println!("{l}");
            }
            match r.bad {
                None => {
                    println!("held");
                    0
                }
                Some((c, m)) => {
                    println!("{c}: {m}");
                    println!("trace {:016x} (recorded {})", r.trace, v["trace_hash"].as_str().unwrap_or("?"));
                    println!("VIOLATION property={} replay={path}", p.id());
                    let same = Some(c.as_str()) == v["class"].as_str() && (c == "abort" || c == "hang" || Some(format!("{:016x}", r.trace).as_str()) == v["trace_hash"].as_str());
                    if same { 1 } else { 3 }
                }
            }
        }
    }
}

fn evidence(p: &dyn Prop, tier_name: &str, tier: u32, seed: u64, a: &Agg, wall: f64, bad: bool) {
    let mut samples = vec![];
    for i in 0..3u64 {
        let cs = case_seed(seed, p.id(), i);
        let mut s = scenario_of(p, tier, cs).to_string();
        if s.len() > 3000 {
            let mut e = 3000;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            s.truncate(e);
            s.push_str("...");
        }
        let log = run_forked(p, tier, Case::Seed(cs), true).map(|r| r.log.into_iter().take(40).collect::<Vec<_>>()).unwrap_or_default();
        samples.push(json!({"index": i, "seed": cs, "scenario": s, "events": log}));
    }
    let mut unhit: Vec<&str> = vec![];
    for k in p.expected_probes() {
        if !a.stats.probes.contains_key(*k) {
            unhit.push(k);
        }
    }
    let v = json!({
        "property": p.id(), "tier": tier_name, "seed": seed, "level": "exploration", "wall_s": wall, "violations": bad as u32,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": format!("One evaluation is one simulated run: a scenario generated from seed hash(VERIF_SEED, property, index) executed in a process of its own. {} Non-trivial: at least one injected fault fired, one scheduler preemption happened or one rare-condition probe was hit. Distinct: by the hash over the ordered sequence of all simulated calls, faults, thread switches, operations and outcomes of the run.", p.rule()),
            "samples": samples,
            "distinct_executions": a.traces.len(),
            "runs_per_hour": (a.runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": a.stats.sim_ns as f64 / 1e9,
            "simulated_calls": a.stats.calls,
            "faults_injected": a.stats.faults,
            "runs_with_faults": a.faulty_runs,
            "runs_with_several_faults": a.multi_fault_runs,
            "yield_points": a.stats.yields,
            "thread_switches": a.stats.switches,
            "blocked_waits": a.stats.blocked,
            "probes": a.stats.probes,
            "probes_never_hit": unhit,
            "runs_repeated_for_determinism": a.rechecked,
            "runs_not_repeatable": a.unrepeatable,
            "real_code": "all of swrs and every crate below it, the Rust standard library, real threads (parked and released one at a time)",
            "stubbed": "disk (in-memory file system with volatile and durable state), file system calls, clock, randomness, futex waits, thread scheduling; Sketchware itself is an independent writer and reader of the format inside the harness",
        },
        "assumptions": p.assumptions(),
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&v).unwrap());
}

fn determinism(id: &str, n: u64) -> i32 {
    // prints the trace hash of every case, to be compared between processes
    let p = props::find(id).unwrap();
    let seed = env_u64("VERIF_SEED", 1);
    for i in 0..n {
        match run_forked(&*p, 0, Case::Seed(case_seed(seed, p.id(), i)), false) {
            Ok(r) => println!("{i} {:016x} {}", r.trace, r.bad.map(|b| b.0).unwrap_or_default()),
            Err(e) => println!("{i} harness {e}"),
        }
    }
    0
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    unsafe {
        std::env::set_var("TMPDIR", "/swrs-sim/tmp");
        // addresses must not differ between processes
        if std::env::var_os("SWRS_SIM_EXEC").is_none() {
            std::env::set_var("SWRS_SIM_EXEC", "1");
            if libc::personality(libc::ADDR_NO_RANDOMIZE as u64) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = Command::new(std::env::current_exe().unwrap()).args(&a[1..]).exec();
                eprintln!("exec: {e}");
            }
        }
    }
    let r: Vec<&str> = a[1..].iter().map(|s| s.as_str()).collect();
    match r.as_slice() {
        ["check", id] => check(id),
        ["replay", f] => replay(f),
        ["worker", ..] => worker(&a[2..]),
        ["traces", id, n] => determinism(id, n.parse().unwrap_or(100)),
        ["case", id, i] => {
            let p = props::find(id).unwrap();
            // an index, or the seed of the case itself
            let i: u64 = i.parse().unwrap();
            let cs = if i > 1 << 40 { i } else { case_seed(env_u64("VERIF_SEED", 1), p.id(), i) };
            let scn = scenario_of(&*p, 0, cs);
            println!("{}", serde_json::to_string_pretty(&scn).unwrap());
            match run_forked(&*p, 0, Case::Scenario(&scn), true) {
                Ok(r) => {
                    for l in r.log {
                        println!("{l}");
                    }
                    println!("{:?}\n{:?}", r.bad, r.stats);
                }
                Err(e) => println!("harness: {e}"),
            }
            0
        }
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        _ => {
            eprintln!("usage: swrs-sim check <property> | replay <file> | case <property> <index> | traces <property> <n> | list");
            2
        }
    }
}

#[allow(dead_code)]
fn unused(_: BTreeMap<u8, u8>) {}
