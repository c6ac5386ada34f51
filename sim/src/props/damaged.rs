//! C04: damaged project data at rest. Loading it at every level ends in a value or in an error that
//! can be displayed; what loads can be saved and loaded again.

use super::session::{raw, texts_of};
use super::store::{chain, faults_ok, gen_faults};
use super::{bad, Prop, Verdict};
use crate::damage::{self, Dmg};
use crate::interpose::PREFIX;
use crate::model::{self, gen_proj, Focus, Proj};
use crate::rng::Rng;
use crate::sketch::{self, Texts, FILES};
use crate::world::{set_world, sut, world, FaultSpec, World};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use swrs::api::SketchwareProject;
use swrs::parser::{self, Parsable, RawSketchwareProject, ResourceFileWrapper};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scn {
    entropy: u64,
    style: u64,
    old_style: u64,
    wild: bool,
    proj: Proj,
    /// changes the project went through since the other save: seed of another project, or none
    old: Option<u64>,
    /// the files were written by swrs itself
    by_swrs: bool,
    dmg: Vec<Dmg>,
    files: bool,
    faults: Vec<FaultSpec>,
}

fn gen(r: &mut Rng, _tier: u32) -> Scn {
    let focus = *r.pick(&[Focus::All, Focus::Code, Focus::Views, Focus::Settings, Focus::Decl]);
    let proj = gen_proj(r, focus);
    let n = match r.below(4) {
        0 | 1 => 1,
        2 => r.range(1, 3),
        _ => r.range(1, 8),
    };
    Scn {
        entropy: r.next() >> 12,
        style: r.next() >> 12,
        old_style: r.next() >> 12,
        wild: r.chance(1, 2),
        proj,
        old: r.chance(1, 2).then(|| r.next() >> 12),
        by_swrs: r.chance(1, 4),
        dmg: (0..n).map(|_| damage::gen(r)).collect(),
        files: r.chance(1, 4),
        faults: if r.chance(1, 6) { gen_faults(r, 3, 20).into_iter().filter(|f| !f.kind.is_crash()).collect() } else { vec![] },
    }
}

fn valid(s: &Scn) -> bool {
    model::ok(&s.proj) && s.dmg.len() <= 16 && s.dmg.iter().all(damage::ok) && faults_ok(&s.faults) && s.faults.iter().all(|f| !f.kind.is_crash())
}

type R<T> = Result<T, (String, String)>;

/// a call that may fail, but only with an error that can be displayed
fn may<T, E: std::error::Error>(what: &str, f: impl FnOnce() -> Result<T, E>) -> R<Option<T>> {
    let r = sut(|| match f() {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = chain(&e);
            let d = format!("{e:?}");
            Err(m.len() + d.len() * 0)
        }
    });
    let w = world();
    if w.ctx[0].calls as u64 > w.fs.call_bound() {
        return bad("unbounded", format!("{what} took {} calls", w.ctx[0].calls));
    }
    match r {
        Err(p) => bad("panic", format!("{what}: {p}")),
        Ok(Ok(v)) => {
            w.note(&format!("{what}: ok"));
            Ok(Some(v))
        }
        Ok(Err(_)) => {
            w.note(&format!("{what}: error"));
            w.probe("refused with an error");
            Ok(None)
        }
    }
}

fn to_raw_p(p: parser::SketchwareProject) -> Result<RawSketchwareProject, parser::SketchwareProjectReconstructionError> {
    p.try_into()
}

fn to_raw_a(p: SketchwareProject) -> Result<RawSketchwareProject, parser::SketchwareProjectReconstructionError> {
    p.try_into()
}

/// everything that can be done with these six texts
fn whole(r: RawSketchwareProject, what: &str) -> R<()> {
    let p = match may(&format!("{what}: parse_from"), || parser::SketchwareProject::parse_from(r))? {
        Some(p) => p,
        None => return Ok(()),
    };
    world().probe("damaged data loaded at the file level");
    let q = p.clone();
    if let Some(r) = may(&format!("{what}: file-level save"), || to_raw_p(q))? {
        may(&format!("{what}: file-level reload"), || parser::SketchwareProject::parse_from(r))?;
    } else {
        return bad("not-saved", format!("{what}: data that was loaded cannot be saved at the file level"));
    }
    let a = match may(&format!("{what}: high level"), || SketchwareProject::try_from(p))? {
        Some(a) => a,
        None => return Ok(()),
    };
    world().probe("damaged data loaded at the high level");
    if let Some(r) = may(&format!("{what}: high-level save"), || to_raw_a(a))? {
        if let Some(p) = may(&format!("{what}: file-level reload of a high-level save"), || parser::SketchwareProject::parse_from(r))? {
            may(&format!("{what}: high level again"), || SketchwareProject::try_from(p))?;
        }
    } else {
        return bad("not-saved", format!("{what}: data that was loaded cannot be saved at the high level"));
    }
    Ok(())
}

fn one<T: Parsable>(what: &str, t: &str) -> R<()>
where
    T::ParseError: std::error::Error,
    T::ReconstructionError: std::fmt::Debug,
{
    if let Some(p) = may(&format!("{what}: parse"), || T::parse(t))? {
        match may(&format!("{what}: reconstruct"), || p.reconstruct().map_err(|e| std::io::Error::other(format!("{e:?}"))))? {
            Some(t) => {
                may(&format!("{what}: parse again"), || T::parse(&t))?;
            }
            None => return bad("not-saved", format!("{what}: parsed, but cannot be saved")),
        }
    }
    Ok(())
}

fn parts(k: usize, t: &str) -> R<()> {
    match k {
        0 => one::<parser::project::Project>("project", t),
        1 => one::<parser::file::File>("file", t),
        2 => one::<parser::library::Library>("library", t),
        3 => one::<parser::resource::Resource>("resource", t),
        4 => one::<parser::view::View>("view", t),
        _ => one::<parser::logic::Logic>("logic", t),
    }
}

/// the smaller parsers, on single lines and sections
fn pieces(k: usize, t: &str, r: &mut Rng) -> R<()> {
    let l: Vec<&str> = t.split('\n').collect();
    let a = r.below(l.len());
    let line = l[a];
    let b = (a + 1 + r.below(6)).min(l.len());
    let sect = l[a..b].join("\n");
    match k {
        1 => one::<parser::file::FileItem>("file entry", line),
        2 => one::<parser::library::LibraryItem>("library entry", line),
        3 => one::<parser::resource::ResourceItem>("resource entry", line),
        4 => {
            one::<parser::view::models::AndroidView>("a view", line)?;
            one::<parser::view::Layout>("a layout", &sect)
        }
        5 => {
            one::<parser::logic::Block>("a block", line)?;
            one::<parser::logic::BlockContainer>("blocks", &sect)?;
            one::<parser::logic::BlockContainerHeader>("a header", line)?;
            one::<parser::logic::variable::Variable>("a variable", line)?;
            one::<parser::logic::variable::VariablePool>("variables", &sect)?;
            one::<parser::logic::list_variable::ListVariable>("a list", line)?;
            one::<parser::logic::list_variable::ListVariablePool>("lists", &sect)?;
            one::<parser::logic::component::Component>("a component", line)?;
            one::<parser::logic::component::ComponentPool>("components", &sect)?;
            one::<parser::logic::event::Event>("an event", line)?;
            one::<parser::logic::event::EventPool>("events", &sect)?;
            one::<parser::logic::more_block::MoreBlock>("a moreblock", line)?;
            one::<parser::logic::more_block::MoreBlockPool>("moreblocks", &sect)
        }
        _ => Ok(()),
    }
}

fn run(s: &Scn) -> Verdict {
    let log = world().log.take();
    let mut w = World::new(s.entropy, s.faults.clone());
    w.log = log;
    w.fs.mkdirs("/store");
    w.fs.sync_all();
    set_world(w);
    let mut texts: Texts = sketch::write_with(&s.proj, &mut Rng::new(s.style), s.wild);
    if s.by_swrs {
        world().begin(0, 900, "saved by swrs");
        let t = texts.clone();
        if let Ok(Ok(r)) = sut(|| -> Result<RawSketchwareProject, String> {
            let p = parser::SketchwareProject::parse_from(raw(&t, None)).map_err(|e| e.to_string())?;
            let a = SketchwareProject::try_from(p).map_err(|e| e.to_string())?;
            to_raw_a(a).map_err(|e| e.to_string())
        }) {
            texts = texts_of(r);
        }
    }
    let old = match s.old {
        Some(x) => sketch::write_with(&gen_proj(&mut Rng::new(x), Focus::All), &mut Rng::new(s.old_style), s.wild),
        None => sketch::write_with(&s.proj, &mut Rng::new(s.old_style), s.wild),
    };
    let (plain, enc) = damage::apply(&s.dmg, &texts, &old);
    for d in &s.dmg {
        *world().stats.faults.entry(format!("damage:{}", damage::kind(d))).or_default() += 1;
        world().note(&format!("{d:?}"));
    }
    for k in 0..6 {
        world().fs.put(&format!("/store/{}", FILES[k]), &enc[k]);
    }
    let files: Option<Vec<ResourceFileWrapper>> = s.files.then(|| super::session::files_of(&s.proj));

    world().begin(0, 0, "from the disk");
    let mut t: Texts = Default::default();
    let mut all = true;
    for k in 0..6 {
        let p = std::path::PathBuf::from(format!("{PREFIX}/store/{}", FILES[k]));
        let b = may(&format!("decrypt_sw_file({})", FILES[k]), || swrs::decrypt_sw_file(&p))?;
        match b.and_then(|b| String::from_utf8(b).ok()) {
            Some(x) => t[k] = x,
            None => all = false,
        }
    }
    if all {
        whole(raw(&t, files.clone()), "decrypted from the disk")?;
    }

    world().begin(0, 1, "encrypted");
    let [a, b, c, d, e, f] = enc.clone();
    let fl = files.clone();
    if let Some(r) = may("from_encrypted", || match fl {
        Some(x) => RawSketchwareProject::from_encrypted(a, b, c, d, e, f, x),
        None => RawSketchwareProject::from_encrypted_wo_res(a, b, c, d, e, f),
    })? {
        whole(r, "from_encrypted")?;
    }

    world().begin(0, 2, "decrypted");
    let t: Texts = std::array::from_fn(|k| String::from_utf8_lossy(&plain[k]).into_owned());
    whole(raw(&t, files), "plain")?;
    for k in 0..6 {
        parts(k, &t[k])?;
    }
    let mut r = Rng::new(s.entropy ^ 99);
    for _ in 0..6 {
        let k = r.range(1, 5);
        pieces(k, &t[k], &mut r)?;
    }
    Ok(())
}

pub struct Damaged;

impl Prop for Damaged {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn runs(&self, tier: u32) -> u64 {
        [60_000, 1_000_000][tier as usize]
    }
    fn gen(&self, rng: &mut Rng, tier: u32) -> Value {
        serde_json::to_value(gen(rng, tier)).unwrap()
    }
    fn valid(&self, scn: &Value) -> bool {
        serde_json::from_value::<Scn>(scn.clone()).map_or(false, |s| valid(&s))
    }
    fn run(&self, scn: &Value) -> Verdict {
        run(&serde_json::from_value::<Scn>(scn.clone()).expect("scenario"))
    }
    fn rule(&self) -> &'static str {
        "A scenario is a stored project (written by Sketchware or by swrs), 1 to 8 kinds of damage to the stored bytes (cut off, torn, stale, mixed from two saves, lines lost, doubled, moved, bits flipped, numbers, texts, headers and keys overwritten or removed, of the plain or the encrypted files) and I/O faults while loading; loaded from the disk, from memory and plain, as a whole, file by file and in pieces, and saved and loaded again where it loads."
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["A call that uses 20 s of processor time, 100 000 file system calls or 6 GB of memory counts as hanging.".into(), "Thread stacks have 8 MB.".into()]
    }
    fn expected_probes(&self) -> &'static [&'static str] {
        &["refused with an error", "damaged data loaded at the file level", "damaged data loaded at the high level"]
    }
}
