//! C12: histories of file-level load and save sessions, alternating with Sketchware, on projects
//! that hold more than the high-level model represents. Whatever was in the files stays in them.

use super::session::{load_raw, texts_of};
use super::store::*;
use super::{bad, Prop, Verdict};
use crate::edit::{self, Edit};
use crate::model::{self, canon_num, diff, gen_proj, Focus, Proj};
use crate::rng::Rng;
use crate::sketch::{self, sections, Texts, FILES};
use crate::world::{set_world, world, FaultSpec, World};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use swrs::parser::{self, Parsable, RawSketchwareProject};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sess {
    /// the whole project at once
    Whole { enc: bool, how: u8, times: u8 },
    /// each of the files on its own
    Each { how: u8, only: Option<usize> },
    Sketch { edits: Vec<Edit>, style: u64 },
    Power { seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scn {
    entropy: u64,
    style: u64,
    proj: Proj,
    sess: Vec<Sess>,
    faults: Vec<FaultSpec>,
}

fn gen(r: &mut Rng, tier: u32) -> Scn {
    let proj = gen_proj(r, Focus::All);
    let n = r.range(1, if tier > 0 { 6 } else { 4 });
    let sess: Vec<Sess> = (0..n)
        .map(|_| match r.below(10) {
            0..=4 => Sess::Whole { enc: r.chance(1, 2), how: r.below(3) as u8, times: r.range(1, 3) as u8 },
            5..=6 => Sess::Each { how: r.below(3) as u8, only: r.chance(1, 2).then(|| r.below(6)) },
            7..=8 => {
                let k = r.small(5);
                Sess::Sketch { edits: (0..k).map(|_| edit::gen(r, Focus::All)).collect(), style: r.next() >> 12 }
            }
            _ => Sess::Power { seed: r.next() >> 12 },
        })
        .collect();
    let faults = gen_faults(r, n, 70);
    Scn { entropy: r.next() >> 12, style: r.next() >> 12, proj, sess, faults }
}

/// numbers and absent values compare by meaning
fn value(v: Value) -> Value {
    fn strip(v: Value) -> Value {
        match v {
            Value::Object(o) => o.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k, strip(v))).collect::<Map<_, _>>().into(),
            Value::Array(a) => a.into_iter().map(strip).collect(),
            v => v,
        }
    }
    let mut v = strip(canon_num(&v));
    // colours are 32 bit patterns
    for p in ["/color_primary", "/color_primary_dark", "/color_accent", "/color_control_normal", "/color_control_highlight", "/color", "/layout/backgroundColor", "/text/textColor", "/text/hintColor"] {
        if let Some(n) = v.pointer_mut(p) {
            if let Some(f) = n.as_f64() {
                *n = json!(f as i64 as u32);
            }
        }
    }
    v
}

/// what a file says, independent of how it is written
fn meaning(k: usize, t: &str) -> Result<Value, String> {
    if k == 0 {
        return serde_json::from_str(t.trim()).map(value).map_err(|e| format!("project: {e}"));
    }
    let mut m = Map::new();
    let mut order: Map<String, Value> = Map::new();
    for (h, lines) in sections(t).map_err(|e| format!("{}: {e}", FILES[k]))? {
        if lines.is_empty() {
            continue;
        }
        let text = k == 5 && [".java_var", ".java_list", ".java_func"].iter().any(|s| h.ends_with(s));
        let mut v = vec![];
        for l in lines {
            if text {
                v.push(json!(l));
            } else {
                v.push(value(serde_json::from_str(&l).map_err(|e| format!("{}: section {h}: `{l}`: {e}", FILES[k]))?));
            }
        }
        // the order of the layouts, of the floating buttons, and of the block containers of a screen
        let group = match k {
            4 if h.ends_with(".xml_fab") => Some("fabs".to_string()),
            4 => Some("layouts".to_string()),
            5 if [".java_var", ".java_list", ".java_func", ".java_components", ".java_events"].iter().any(|s| h.ends_with(s)) => None,
            5 => Some(format!("containers of {}", h.split('.').next().unwrap_or(""))),
            _ => None,
        };
        if let Some(g) = group {
            let o = order.entry(g).or_insert_with(|| json!([]));
            o.as_array_mut().unwrap().push(json!(h));
        }
        if m.insert(h.clone(), Value::Array(v)).is_some() {
            return Err(format!("{}: section {h} appears twice", FILES[k]));
        }
    }
    Ok(json!({ "sections": m, "order": order }))
}

fn same(want: &Texts, got: &Texts, when: &str) -> Step<()> {
    for k in 0..6 {
        if want[k] == got[k] {
            continue;
        }
        let w = meaning(k, &want[k]).unwrap_or_else(|e| panic!("harness: {e}"));
        match meaning(k, &got[k]) {
            Err(e) => return stop("unreadable", format!("{when}: {e}")),
            Ok(g) => {
                if let Some(d) = diff(&w, &g) {
                    return stop("lost", format!("{when}: {}{d}", FILES[k]));
                }
            }
        }
    }
    Ok(())
}

fn again<T: Parsable>(name: &str, t: &str) -> Step<String>
where
    T::ParseError: std::error::Error,
    T::ReconstructionError: std::error::Error,
{
    let p = must(&format!("{name}::parse"), || T::parse(t).map_err(chained))?;
    must(&format!("{name}::reconstruct"), || p.reconstruct().map_err(chained))
}

fn one(k: usize, t: &str) -> Step<String> {
    match k {
        0 => again::<parser::project::Project>("Project", t),
        1 => again::<parser::file::File>("File", t),
        2 => again::<parser::library::Library>("Library", t),
        3 => again::<parser::resource::Resource>("Resource", t),
        4 => again::<parser::view::View>("View", t),
        _ => again::<parser::logic::Logic>("Logic", t),
    }
}

fn run(s: &Scn) -> Verdict {
    let log = world().log.take();
    let mut w = World::new(s.entropy, s.faults.clone());
    w.log = log;
    w.fs.mkdirs("/store");
    w.fs.mkdirs("/work");
    w.fs.sync_all();
    set_world(w);
    let mut m = s.proj.clone();
    let mut want = sketch::write_with(&m, &mut Rng::new(s.style), true);
    put_by_sketchware(&want);
    for (i, x) in s.sess.iter().enumerate() {
        let op = i as u32;
        match x {
            Sess::Power { seed } => power_off(*seed),
            Sess::Sketch { edits, style } => {
                world().begin(0, op, "Sketchware");
                for e in edits {
                    let _ = edit::apply(e, &mut m, None);
                }
                want = sketch::write_with(&m, &mut Rng::new(*style), true);
                put_by_sketchware(&want);
                world().probe("Sketchware session");
            }
            Sess::Whole { enc, how, times } => {
                persist(op, "whole", s.faults.len(), || {
                    let mut r = load_raw(*enc, None)?;
                    for _ in 0..(*times).clamp(1, 4) {
                        let p = must("parse_from", || super::session::parsed(r).map_err(chained))?;
                        r = must("reconstruct", || {
                            let r: Result<RawSketchwareProject, _> = p.try_into();
                            r.map_err(|e| chained::<parser::SketchwareProjectReconstructionError>(e))
                        })?;
                    }
                    let t = texts_of(r);
                    same(&want, &t, "saved")?;
                    save_texts(&t, *how)
                })?;
                world().probe("whole-project session");
            }
            Sess::Each { how, only } => {
                persist(op, "each", s.faults.len(), || {
                    let mut t = load_texts()?;
                    for k in 0..6 {
                        if only.map_or(true, |o| o == k) {
                            t[k] = one(k, &t[k])?;
                        }
                    }
                    same(&want, &t, "saved one by one")?;
                    save_texts(&t, *how)
                })?;
                world().probe("file-by-file session");
            }
        }
        let t = read_by_sketchware().map_err(|e| ("stored".to_string(), e))?;
        if let Err(Stop::Bad(c, e)) = same(&want, &t, &format!("on the disk after session {i}")) {
            return bad(&c, e);
        }
        world().note(&format!("stored {:x}", crate::rng::hash_bytes(0, t.concat().as_bytes())));
    }
    persist(1000, "final load", s.faults.len(), || {
        let r = load_raw(false, None)?;
        same(&want, &texts_of(r.clone()), "decrypted")?;
        must("parse_from", || super::session::parsed(r).map_err(chained))?;
        Ok(())
    })
}

pub struct FileLevel;

impl Prop for FileLevel {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn runs(&self, tier: u32) -> u64 {
        [20_000, 400_000][tier as usize]
    }
    fn gen(&self, rng: &mut Rng, tier: u32) -> Value {
        serde_json::to_value(gen(rng, tier)).unwrap()
    }
    fn valid(&self, scn: &Value) -> bool {
        serde_json::from_value::<Scn>(scn.clone()).map_or(false, |s| model::ok(&s.proj) && s.sess.len() <= 12 && faults_ok(&s.faults))
    }
    fn run(&self, scn: &Value) -> Verdict {
        run(&serde_json::from_value::<Scn>(scn.clone()).expect("scenario"))
    }
    fn rule(&self) -> &'static str {
        "A scenario is a project with data the high-level model does not represent, a history of file-level load and save sessions (whole project or file by file), Sketchware sessions and power losses on one simulated disk, and a fault plan; interrupted sessions are repeated from the last committed state."
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "Sketchware is represented by the harness's own writer and section reader (sim/src/sketch.rs).".into(),
            "Empty sections, the order of sections of different kinds, the order of keys and the spelling of numbers carry no meaning; numbers with a fraction have single precision.".into(),
        ]
    }
    fn expected_probes(&self) -> &'static [&'static str] {
        &["whole-project session", "file-by-file session", "Sketchware session", "session repeated", "process died"]
    }
}
