//! C05, C06, C07, C11: histories of load, edit and save sessions by swrs and by Sketchware on one
//! stored project, with faults and crashes; compared with the reference model all along.

use super::store::*;
use super::{bad, Prop, Verdict};
use crate::bridge;
use crate::edit::{self, Edit};
use crate::model::{self, canon, diff, gen_proj, Focus, Proj};
use crate::rng::Rng;
use crate::sketch::{self, Texts, FILES};
use crate::world::{set_world, world, FaultSpec, World};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use swrs::api::view::View;
use swrs::api::{ResourceId, Resources, SketchwareProject};
use swrs::parser::{self, RawSketchwareProject, ResourceFileWrapper, ResourceType};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sess {
    /// load into the high-level model, edit, save
    Api { edits: Vec<Edit>, enc: bool, files: bool, how: u8 },
    /// load into the file-level model and save
    Parser { enc: bool, how: u8 },
    /// build the whole project anew through the high-level model and save it
    New { style: u64, how: u8 },
    /// Sketchware edits and saves
    Sketch { edits: Vec<Edit>, style: u64 },
    Power { seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scn {
    entropy: u64,
    style: u64,
    proj: Proj,
    sess: Vec<Sess>,
    faults: Vec<FaultSpec>,
}

fn gen(r: &mut Rng, focus: Focus, tier: u32) -> Scn {
    let proj = gen_proj(r, focus);
    let edits = |r: &mut Rng| {
        let n = r.small(if tier > 0 { 12 } else { 8 });
        (0..n).map(|_| edit::gen(r, focus)).collect::<Vec<_>>()
    };
    let n = r.range(1, if tier > 0 { 6 } else { 4 });
    let sess: Vec<Sess> = (0..n)
        .map(|_| match r.below(14) {
            0..=6 => Sess::Api { edits: edits(r), enc: r.chance(1, 2), files: r.chance(1, 3), how: r.below(3) as u8 },
            7..=8 => Sess::Parser { enc: r.chance(1, 2), how: r.below(3) as u8 },
            9..=10 => Sess::New { style: r.next() >> 12, how: r.below(3) as u8 },
            11..=12 => Sess::Sketch { edits: edits(r), style: r.next() >> 12 },
            _ => Sess::Power { seed: r.next() >> 12 },
        })
        .collect();
    let faults = gen_faults(r, n, 70);
    Scn { entropy: r.next() >> 12, style: r.next() >> 12, proj, sess, faults }
}

fn valid(s: &Scn) -> bool {
    model::ok(&s.proj) && s.sess.len() <= 12 && faults_ok(&s.faults)
}

fn wrapper(id: &str, full: &str, t: ResourceType) -> ResourceFileWrapper {
    ResourceFileWrapper::StringId { id: id.into(), res_full_name: full.into(), res_type: t }
}

pub fn files_of(m: &Proj) -> Vec<ResourceFileWrapper> {
    let mut v = vec![];
    for k in 0..3 {
        for (n, full) in &m.res[k] {
            v.push(wrapper(n, full, edit::res_type(k)));
        }
    }
    if m.icon {
        v.push(wrapper("icon", "icon.png", ResourceType::CustomIcon));
    }
    v
}

pub fn texts_of(r: RawSketchwareProject) -> Texts {
    [r.project, r.file, r.library, r.resource, r.view, r.logic]
}

pub fn raw(t: &Texts, files: Option<Vec<ResourceFileWrapper>>) -> RawSketchwareProject {
    let [a, b, c, d, e, f] = t.clone();
    match files {
        Some(x) => RawSketchwareProject::new(a, b, c, d, e, f, x),
        None => RawSketchwareProject::new_wo_res(a, b, c, d, e, f),
    }
}

/// the raw project on the disk, through one of the two ways to get it
pub fn load_raw(enc: bool, files: Option<Vec<ResourceFileWrapper>>) -> Step<RawSketchwareProject> {
    if enc {
        let [a, b, c, d, e, f] = load_bytes();
        must("from_encrypted", || {
            match files {
                Some(x) => RawSketchwareProject::from_encrypted(a, b, c, d, e, f, x),
                None => RawSketchwareProject::from_encrypted_wo_res(a, b, c, d, e, f),
            }
            .map_err(chained)
        })
    } else {
        let t = load_texts()?;
        Ok(raw(&t, files))
    }
}

/// loads by one of the ways there are
pub fn parsed(r: RawSketchwareProject) -> Result<parser::SketchwareProject, parser::SketchwareProjectParseError> {
    if r.project.len() % 2 == 0 {
        return parser::SketchwareProject::parse_from(r);
    }
    match r.resource_files {
        Some(f) => parser::SketchwareProject::parse(r.project, r.file, r.library, r.resource, r.view, r.logic, f),
        None => parser::SketchwareProject::parse_wo_res(r.project, r.file, r.library, r.resource, r.view, r.logic),
    }
}

pub fn to_api(r: RawSketchwareProject) -> Step<SketchwareProject> {
    let p = must("parse_from", || parsed(r).map_err(chained))?;
    must("api::SketchwareProject::try_from", || SketchwareProject::try_from(p).map_err(chained))
}

pub fn to_raw(p: SketchwareProject) -> Step<RawSketchwareProject> {
    must("api::SketchwareProject::try_into", || {
        let r: Result<RawSketchwareProject, _> = p.try_into();
        r.map_err(|e| chained::<parser::SketchwareProjectReconstructionError>(e))
    })
}

/// builds the project of the model through the constructors of swrs
pub fn build(m: &Proj, style: u64) -> Result<SketchwareProject, String> {
    let mut res = Resources::new_empty();
    for k in 0..3 {
        for (n, full) in &m.res[k] {
            res.put_resource(ResourceId(n.clone()), wrapper(n, full, edit::res_type(k)), edit::res_type(k)).map_err(|e| format!("put_resource: {e}"))?;
        }
    }
    let mut p = SketchwareProject::new(
        bridge::meta_out(&m.meta),
        bridge::colors_out(&m.colors),
        m.screens.iter().map(|s| bridge::screen_out(s, style)).collect::<Result<_, _>>()?,
        m.customs.iter().map(bridge::custom_out).collect::<Result<_, _>>()?,
        bridge::libs_out(&m.libs),
        res,
    );
    if m.icon {
        p.custom_icon = Some(wrapper("icon", "icon.png", ResourceType::CustomIcon));
    }
    Ok(p)
}

/// what Sketchware would see in these files is what the model says
pub fn sees(t: &Texts, m: &Proj, focus: Focus, when: &str) -> Step<()> {
    let (p, issues) = sketch::read(t);
    for (f, msg) in issues {
        if f == focus || f == Focus::All || focus == Focus::All {
            return stop("unreadable", format!("{when}: {msg}"));
        }
    }
    match p {
        None => stop("unreadable", format!("{when}: not readable")),
        Some(p) => match diff(&canon(m, focus), &canon(&p, focus)) {
            None => Ok(()),
            Some(d) => stop("saved", format!("{when}: {d}")),
        },
    }
}

pub fn shows(p: &SketchwareProject, m: &Proj, focus: Focus, when: &str) -> Step<()> {
    match bridge::proj_in(p) {
        Err(e) => stop("loaded", format!("{when}: {e}")),
        Ok(q) => match diff(&canon(m, focus), &canon(&q, focus)) {
            None if focus == Focus::Views || focus == Focus::All => lookups(p, when),
            None => Ok(()),
            Some(d) => stop("loaded", format!("{when}: {d}")),
        },
    }
}

/// looking a view up by its id finds the view (ids are unique within a layout)
fn lookups(p: &SketchwareProject, when: &str) -> Step<()> {
    fn all<'a>(v: &'a [View], out: &mut Vec<&'a View>) {
        for x in v {
            out.push(x);
            all(&x.children, out);
        }
    }
    for l in p.screens.iter().map(|s| &s.layout).chain(p.custom_views.iter().map(|c| &c.layout)) {
        let mut views = vec![];
        all(l, &mut views);
        for x in views.iter().take(40) {
            if !l.iter().find_map(|r| r.find_id(&x.id)).map_or(false, |y| std::ptr::eq(*x, y)) {
                return stop("lookup", format!("{when}: looking up view {:?} does not find it", x.id));
            }
        }
        if l.iter().any(|r| r.find_id("no such view").is_some()) {
            return stop("loaded", format!("{when}: a view that does not exist was found"));
        }
    }
    Ok(())
}

fn run(s: &Scn, focus: Focus) -> Verdict {
    let log = world().log.take();
    let mut w = World::new(s.entropy, s.faults.clone());
    w.log = log;
    w.fs.mkdirs("/store");
    w.fs.mkdirs("/work");
    w.fs.sync_all();
    set_world(w);
    let mut m = s.proj.clone();
    let first = sketch::write(&m, &mut Rng::new(s.style));
    put_by_sketchware(&first);
    // the harness has to agree with itself
    if let Err(Stop::Bad(_, e)) = sees(&first, &m, Focus::All, "harness") {
        panic!("harness: {e}");
    }
    for (i, x) in s.sess.iter().enumerate() {
        let op = i as u32;
        match x {
            Sess::Power { seed } => power_off(*seed),
            Sess::Sketch { edits, style } => {
                world().begin(0, op, "Sketchware");
                for e in edits {
                    let _ = edit::apply(e, &mut m, None);
                }
                put_by_sketchware(&sketch::write(&m, &mut Rng::new(*style)));
                world().probe("Sketchware session");
            }
            Sess::Parser { enc, how } => {
                persist(op, "file level", s.faults.len(), || {
                    let r = load_raw(*enc, None)?;
                    let p = must("parse_from", || parsed(r).map_err(chained))?;
                    let r: RawSketchwareProject = must("reconstruct", || {
                        let r: Result<RawSketchwareProject, _> = p.try_into();
                        r.map_err(|e| chained::<parser::SketchwareProjectReconstructionError>(e))
                    })?;
                    let t = texts_of(r);
                    sees(&t, &m, focus, "saved at the file level")?;
                    save_texts(&t, *how)
                })?;
                world().probe("file-level session");
            }
            Sess::New { style, how } => {
                persist(op, "new", s.faults.len(), || {
                    let p = match must("build", || build(&m, *style)) {
                        Ok(p) => p,
                        Err(x) => return Err(x),
                    };
                    shows(&p, &m, focus, "built")?;
                    let t = texts_of(to_raw(p)?);
                    sees(&t, &m, focus, "built and saved")?;
                    save_texts(&t, *how)
                })?;
                world().probe("built from nothing");
            }
            Sess::Api { edits, enc, files, how } => {
                let next = persist(op, "edit", s.faults.len(), || {
                    let mut m = m.clone();
                    let r = load_raw(*enc, files.then(|| files_of(&m)))?;
                    let mut p = to_api(r)?;
                    shows(&p, &m, focus, "loaded")?;
                    let mut touched = false;
                    for e in edits {
                        // replacing the type of a view drops what was set through the fields of
                        // the old type before
                        if matches!(e, Edit::Type { .. }) && touched {
                            continue;
                        }
                        touched |= matches!(e, Edit::Type { .. } | Edit::Attr { .. });
                        let r = crate::world::sut(|| edit::apply(e, &mut m, Some(&mut p)));
                        match r {
                            Err(x) => return stop("panic", format!("{e:?}: {x}")),
                            Ok(Err(x)) => return stop("edit", x),
                            Ok(Ok(true)) => world().probe("edit applied"),
                            Ok(Ok(false)) => {}
                        }
                    }
                    shows(&p, &m, focus, "edited")?;
                    let t = texts_of(to_raw(p)?);
                    sees(&t, &m, focus, "saved")?;
                    save_texts(&t, *how)?;
                    Ok(m)
                })?;
                m = next;
                world().probe("high-level session");
            }
        }
        let t = read_by_sketchware().map_err(|e| ("stored".to_string(), e))?;
        if let Err(Stop::Bad(c, e)) = sees(&t, &m, focus, &format!("on the disk after session {i}")) {
            return bad(&c, e);
        }
        world().note(&format!("stored {:x}", crate::rng::hash_bytes(0, t.concat().as_bytes())));
    }
    // faults have stopped: everything has to be there
    persist(1000, "final load", s.faults.len(), || {
        let p = to_api(load_raw(false, None)?)?;
        shows(&p, &m, focus, "loaded in the end")
    })
}

pub struct Session {
    pub id: &'static str,
    pub focus: Focus,
}

impl Prop for Session {
    fn id(&self) -> &'static str {
        self.id
    }
    fn runs(&self, tier: u32) -> u64 {
        let quick = match self.focus {
            Focus::Code => 30_000,
            Focus::Views => 30_000,
            _ => 40_000,
        };
        [quick, 400_000][tier as usize]
    }
    fn gen(&self, rng: &mut Rng, tier: u32) -> Value {
        serde_json::to_value(gen(rng, self.focus, tier)).unwrap()
    }
    fn valid(&self, scn: &Value) -> bool {
        serde_json::from_value::<Scn>(scn.clone()).map_or(false, |s| valid(&s))
    }
    fn run(&self, scn: &Value) -> Verdict {
        run(&serde_json::from_value::<Scn>(scn.clone()).expect("scenario"), self.focus)
    }
    fn rule(&self) -> &'static str {
        "A scenario is a project, a history of sessions (loaded, edited and saved through the high-level model; loaded and saved through the file-level model; built anew; edited by Sketchware; power losses) on one simulated disk and a fault plan; interrupted sessions are repeated from the last committed state."
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            format!("Sketchware is represented by the harness's own reader and writer of {} (sim/src/sketch.rs).", FILES.join(", ")),
            "Projects are well-formed in the sense of sim/src/model.rs `ok`.".into(),
            "An application keeps the six files of a save in a directory of their own and switches to it when all six calls returned.".into(),
        ]
    }
    fn expected_probes(&self) -> &'static [&'static str] {
        &["high-level session", "file-level session", "built from nothing", "Sketchware session", "edit applied", "session repeated", "process died"]
    }
}
