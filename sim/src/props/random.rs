//! C09: the same work in several processes that differ in everything random (hash seeds, random
//! numbers, clock, memory layout, what the process did before, faults that are retried) leaves the
//! same bytes on the disk.

use super::session::{build, files_of, load_raw, sees, texts_of, to_api, to_raw};
use super::store::*;
use super::{bad, Prop, Verdict};
use crate::driver::subfork;
use crate::edit::{self, Edit};
use crate::model::{self, gen_proj, Focus, Proj};
use crate::rng::{hash_bytes, Rng};
use crate::sketch::{self, FILES};
use crate::world::{set_world, world, FaultSpec, World};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use swrs::parser::{self, RawSketchwareProject};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Work {
    Api { edits: Vec<Edit>, files: bool },
    Parser,
    New { style: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Process {
    entropy: u64,
    clock: u64,
    /// loads and saves something else first
    warm: Option<u64>,
    /// saves this many times something with many or few containers
    busy: (u32, bool),
    waste: u32,
    faults: Vec<FaultSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scn {
    style: u64,
    proj: Proj,
    work: Vec<Work>,
    how: u8,
    procs: Vec<Process>,
}

fn gen(r: &mut Rng, tier: u32) -> Scn {
    let focus = *r.pick(&[Focus::All, Focus::All, Focus::Decl, Focus::Views, Focus::Code, Focus::Settings]);
    let proj = gen_proj(r, focus);
    let n = r.range(1, 3);
    let work: Vec<Work> = (0..n)
        .map(|_| match r.below(5) {
            0..=2 => {
                let k = r.small(8);
                Work::Api { edits: (0..k).map(|_| edit::gen(r, focus)).collect(), files: r.chance(1, 3) }
            }
            3 => Work::Parser,
            _ => Work::New { style: r.next() >> 12 },
        })
        .collect();
    let np = if tier > 0 { r.range(2, 6) } else { r.range(2, 3) };
    let procs = (0..np)
        .map(|i| Process {
            entropy: r.next() >> 12,
            clock: r.below(1 << 40) as u64,
            warm: (i > 0 && r.chance(1, 2)).then(|| r.next() >> 12),
            busy: match r.below(80) {
                0 => (r.range(100, 600) as u32, false),
                1 => (r.range(5, 20) as u32, true),
                2 if r.chance(1, 4) => (r.range(60, 120) as u32, true),
                _ => (0, false),
            },
            waste: r.below(100_000) as u32,
            faults: if i > 0 && r.chance(1, 3) { gen_faults(r, n, 60) } else { vec![] },
        })
        .collect();
    Scn { style: r.next() >> 12, proj, work, how: r.below(3) as u8, procs }
}

fn valid(s: &Scn) -> bool {
    model::ok(&s.proj) && (2..=8).contains(&s.procs.len()) && s.work.len() <= 6 && s.procs.iter().all(|p| faults_ok(&p.faults))
}

#[derive(Serialize, Deserialize, Default)]
struct Out {
    bad: Option<(String, String)>,
    /// the six stored files after each piece of work
    stored: Vec<Vec<Vec<u8>>>,
    calls: u64,
    faults: std::collections::BTreeMap<String, u64>,
}

fn again<T: Clone>(what: &str, p: &T, save: impl Fn(T) -> Step<RawSketchwareProject>) -> Step<RawSketchwareProject> {
    let a = save(p.clone())?;
    let b = save(p.clone())?;
    let (ta, tb) = (texts_of(a.clone()), texts_of(b));
    for k in 0..6 {
        if ta[k] != tb[k] {
            return stop("twice", format!("{what}: saving twice gives different {} files: {}", FILES[k], first_difference(ta[k].as_bytes(), tb[k].as_bytes())));
        }
    }
    Ok(a)
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(30).min(v.len())..(i + 60).min(v.len())]).into_owned();
    format!("at byte {i}: {:?} and {:?}", cut(a), cut(b))
}

fn verdict(s: Stop) -> (String, String) {
    match s {
        Stop::Bad(c, e) => (c, format!("busy process: {e}")),
        _ => ("harness".into(), "interrupted without a fault".into()),
    }
}

/// a project with a few, or with many containers and blocks
fn busy_texts(large: bool) -> sketch::Texts {
    let mut r = Rng::new(7);
    let mut p = gen_proj(&mut r, Focus::Settings);
    p.screens.clear();
    r.big = 0;
    for i in 0..if large { 3 } else { 1 } {
        let mut s = model::gen_screen(&mut r, format!("busy{i}"), Focus::Code);
        s.mbs.clear();
        for j in 0..if large { 120 } else { 2 } {
            s.mbs.push(model::Mb { id: format!("mb{j}"), spec: "do".into(), code: model::gen_code(&mut r, 3) });
        }
        p.screens.push(s);
    }
    sketch::write(&p, &mut r)
}

fn process(s: &Scn, p: &Process) -> Out {
    let mut w = World::new(p.entropy, p.faults.clone());
    w.clock += p.clock;
    w.fs.mkdirs("/store");
    w.fs.mkdirs("/work");
    w.fs.sync_all();
    set_world(w);
    std::mem::forget(vec![1u8; p.waste as usize]);
    let mut out = Out::default();
    let r = (|| -> Verdict {
        let mut m = s.proj.clone();
        put_by_sketchware(&sketch::write(&m, &mut Rng::new(s.style)));
        if let Some(x) = p.warm {
            let other = gen_proj(&mut Rng::new(x), Focus::All);
            let t = sketch::write(&other, &mut Rng::new(x));
            persist(900, "warm up", 0, || {
                let q = to_api(super::session::raw(&t, None))?;
                to_raw(q).map(|_| ())
            })?;
        }
        if p.busy.0 > 0 {
            let t = busy_texts(p.busy.1);
            let raw = super::session::raw(&t, None);
            let q = to_api(raw.clone()).map_err(verdict)?;
            for i in 0..p.busy.0 {
                let a = if i % 2 == 0 { to_raw(q.clone()) } else { to_api(raw.clone()).and_then(to_raw) };
                a.map_err(verdict)?;
            }
        }
        for (i, x) in s.work.iter().enumerate() {
            m = persist(i as u32, "work", p.faults.len(), || {
                let mut m = m.clone();
                let r = match x {
                    Work::Api { edits, files } => {
                        let mut q = to_api(load_raw(i % 2 == 0, files.then(|| files_of(&m)))?)?;
                        let mut touched = false;
                        for e in edits {
                            if matches!(e, Edit::Type { .. }) && touched {
                                continue;
                            }
                            touched |= matches!(e, Edit::Type { .. } | Edit::Attr { .. });
                            match crate::world::sut(|| edit::apply(e, &mut m, Some(&mut q))) {
                                Err(x) => return stop("panic", x),
                                Ok(Err(x)) => return stop("edit", x),
                                _ => {}
                            }
                        }
                        again("high level", &q, to_raw)?
                    }
                    Work::Parser => {
                        let raw = load_raw(i % 2 == 0, None)?;
                        let q = must("parse_from", || super::session::parsed(raw).map_err(chained))?;
                        again("file level", &q, |q| {
                            must("reconstruct", || {
                                let r: Result<RawSketchwareProject, _> = q.try_into();
                                r.map_err(|e| chained::<parser::SketchwareProjectReconstructionError>(e))
                            })
                        })?
                    }
                    Work::New { style } => {
                        let q = must("build", || build(&m, *style))?;
                        again("built", &q, to_raw)?
                    }
                };
                let t = texts_of(r);
                // in the order it was loaded or added in
                sees(&t, &m, Focus::All, "saved")?;
                save_texts(&t, s.how)?;
                Ok(m)
            })?;
            out.stored.push((0..6).map(|k| stored(k).unwrap_or_default()).collect());
        }
        Ok(())
    })();
    out.bad = r.err();
    out.calls = world().stats.calls;
    out.faults = world().stats.faults.clone();
    out
}

fn run(s: &Scn) -> Verdict {
    let log = world().log.take();
    let mut w = World::new(0, vec![]);
    w.log = log;
    set_world(w);
    let mut first: Option<Out> = None;
    for (i, p) in s.procs.iter().enumerate() {
        let b = match subfork(|| serde_json::to_vec(&process(s, p)).unwrap()) {
            Ok(b) => b,
            Err(e) => return bad("abort", format!("process {i}: {e}")),
        };
        let o: Out = crate::driver::parse(&b).expect("harness: result of a sub process");
        let w = world();
        w.stats.calls += o.calls;
        for (k, n) in &o.faults {
            *w.stats.faults.entry(k.clone()).or_default() += n;
        }
        *w.stats.faults.entry("OtherEntropy".into()).or_default() += 1;
        if let Some((c, m)) = o.bad {
            return bad(&c, format!("process {i}: {m}"));
        }
        for (j, files) in o.stored.iter().enumerate() {
            w.note(&format!("process {i} (entropy {:x}) after {j}: {:x}", p.entropy, files.iter().fold(0, |h, f| hash_bytes(h, f))));
        }
        match &first {
            None => first = Some(o),
            Some(f) => {
                for (j, (a, b)) in f.stored.iter().zip(&o.stored).enumerate() {
                    for k in 0..6 {
                        if a[k] != b[k] {
                            let (pa, pb) = (crate::aes::decrypt(&a[k]).unwrap_or_default(), crate::aes::decrypt(&b[k]).unwrap_or_default());
                            return bad("differs", format!("process 0 and {i} saved different {} files after work {j}: {}", FILES[k], first_difference(&pa, &pb)));
                        }
                    }
                }
                w.probe("processes compared");
                if s.procs.iter().any(|p| p.busy.0 > 0) {
                    w.probe("busy process");
                }
            }
        }
    }
    Ok(())
}

pub struct Random;

impl Prop for Random {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn runs(&self, tier: u32) -> u64 {
        [12_000, 200_000][tier as usize]
    }
    fn gen(&self, rng: &mut Rng, tier: u32) -> Value {
        serde_json::to_value(gen(rng, tier)).unwrap()
    }
    fn valid(&self, scn: &Value) -> bool {
        serde_json::from_value::<Scn>(scn.clone()).map_or(false, |s| valid(&s))
    }
    fn run(&self, scn: &Value) -> Verdict {
        run(&serde_json::from_value::<Scn>(scn.clone()).expect("scenario"))
    }
    fn rule(&self) -> &'static str {
        "A scenario is a project, pieces of work on it (load, edit, save at either level, or build anew) and 2 to 6 processes that differ in hash seeds, random numbers, clock, memory layout, what they did before and the faults they meet; the stored bytes of all of them are compared."
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["All randomness reaches the code through getrandom, the clock or memory addresses; the harness owns the first two and perturbs the third.".into()]
    }
    fn expected_probes(&self) -> &'static [&'static str] {
        &["processes compared", "busy process"]
    }
}
