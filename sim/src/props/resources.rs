//! C08: the resource registry of a project and the files behind it, while files appear and vanish
//! and looking them up fails.

use super::session::texts_of;
use super::store::{chain, Stop};
use super::{bad, Prop, Verdict};
use crate::edit::res_type;
use crate::interpose::PREFIX;
use crate::model::{gen_proj, Focus, Proj};
use crate::rng::Rng;
use crate::sketch;
use crate::world::{set_world, sut, world, Fault, FaultSpec, World};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeSet;
use swrs::api::{ResourceAdditionError, ResourceId, Resources, SketchwareProject};
use swrs::parser::{self, RawSketchwareProject, ResourceFileWrapper, ResourceType};

const DIRS: [&str; 5] = ["images", "sounds", "fonts", "icons", "misc"];

/// something that may be on the disk: folder, file name, what it is
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spot {
    dir: usize,
    name: String,
    /// 0 absent, 1 file, 2 link to a file, 3 link to nothing, 4 folder
    state: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Back {
    Path(usize),
    Str(String, String, u8),
    Num(u32, String, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Put { id: String, kind: usize, back: Back },
    /// a path that is there but has no name that could be stored; put, or among the files of a load
    Odd { id: String, kind: usize, how: u8, load: bool },
    Remove { id: String },
    Get { id: String },
    Icon { back: Option<Back> },
    Vanish(usize),
    Appear(usize),
    /// save, and load what was saved with the files that were handed back
    SaveLoad { file_level: bool },
    /// forget everything and load the original data again with these files
    Load { files: Option<Vec<Back>> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scn {
    entropy: u64,
    style: u64,
    spots: Vec<Spot>,
    /// where the folders are, which project they are of
    place: (usize, usize),
    /// images, sounds, fonts of the stored project: (name, full name)
    res: [Vec<(String, String)>; 3],
    icon: bool,
    ops: Vec<Op>,
    faults: Vec<FaultSpec>,
}

const PLACES: [&str; 4] = ["/sdcard", "/sdcard/images/x", "/storage/emulated/0", "/data/fonts/sounds"];
const PROJECTS: [&str; 4] = ["601", "images", "icons", "1"];

/// ids and names, mostly from a small pool
fn rid(r: &mut Rng) -> String {
    if r.chance(1, 8) {
        let n = if r.chance(1, 2) { crate::model::name(r) } else { r.pick(&[" a", "a ", "A", "B", "Icon", "LOGO", "a.b", "a.png", "0", "日本", "🦀", ".hidden", "x\\y"]).to_string() };
        return n.chars().take(80).collect();
    }
    IDS[r.below(8)].into()
}

const IDS: [&str; 8] = ["a", "b", "icon", "logo", "é", "bg", "default_image", "x y"];

fn gen_back(r: &mut Rng, spots: &[Spot]) -> Back {
    let full = format!("{}.{}", rid(r), ["png", "mp3", "ttf", "9.png", "PNG"][r.below(5)]);
    match r.below(5) {
        0..=2 => Back::Path(r.below(spots.len())),
        3 => Back::Str(rid(r), full, r.below(4) as u8),
        _ => Back::Num(r.next() as u32, full, r.below(4) as u8),
    }
}

/// a list of files that fits the stored project, more or less
fn gen_files(r: &mut Rng, spots: &mut Vec<Spot>, res: &[Vec<(String, String)>; 3], icon: bool) -> Vec<Back> {
    let mut v = vec![];
    let sloppy = r.chance(1, 3);
    for k in 0..3 {
        for (n, full) in &res[k] {
            if sloppy && r.chance(1, 6) {
                continue;
            }
            v.push(match r.below(3) {
                0 => Back::Str(n.clone(), full.clone(), k as u8),
                1 => Back::Num(r.next() as u32, full.clone(), k as u8),
                _ => {
                    let dir = if sloppy && r.chance(1, 8) { r.below(5) } else { k };
                    let at = spots.iter().position(|s| s.dir == dir && s.name == *full).unwrap_or_else(|| {
                        spots.push(Spot { dir, name: full.clone(), state: if sloppy && r.chance(1, 5) { r.below(5) as u8 } else { 1 + (r.chance(1, 6) as u8) } });
                        spots.len() - 1
                    });
                    Back::Path(at)
                }
            });
        }
    }
    if icon {
        v.push(match r.below(3) {
            0 => Back::Str("icon".into(), "icon.png".into(), 3),
            1 => Back::Num(7, "icon.png".into(), 3),
            _ => {
                let at = spots.iter().position(|s| s.dir == 3).unwrap_or_else(|| {
                    spots.push(Spot { dir: 3, name: "icon.png".into(), state: 1 });
                    spots.len() - 1
                });
                Back::Path(at)
            }
        });
    }
    r.shuffle(&mut v);
    v
}

fn gen(r: &mut Rng, tier: u32) -> Scn {
    let mut spots: Vec<Spot> = (0..r.range(2, 6))
        .map(|i| Spot { dir: r.below(3), name: format!("{}{}.{}", if r.chance(1, 4) { rid(r) } else { ["pic", "snd", "é f", "a"][r.below(4)].to_string() }, i, ["png", "ogg", "ttf"][r.below(3)]), state: [1, 1, 1, 0, 2, 3, 4][r.below(7)] })
        .collect();
    let mut res: [Vec<(String, String)>; 3] = Default::default();
    let mut used = BTreeSet::new();
    for k in 0..3 {
        for _ in 0..if r.chance(1, 30) { r.range(8, 25) } else { r.small(3) } {
            let n = if r.chance(1, 3) { rid(r) } else { format!("{}{}", rid(r), r.below(4)) };
            if used.insert(n.clone()) {
                res[k].push((n.clone(), format!("{n}.{}", ["png", "mp3", "ttf"][k])));
            }
        }
    }
    let icon = r.chance(1, 2);
    let n = r.range(1, if tier > 0 { 24 } else { 14 });
    let mut ops = vec![];
    for _ in 0..n {
        let known: Vec<String> = res.iter().flatten().map(|x| x.0.clone()).collect();
        let id = |r: &mut Rng| if !known.is_empty() && r.chance(1, 4) { r.pick(&known).clone() } else { if r.chance(1, 8) { rid(r) } else { IDS[r.below(5)].to_string() } };
        ops.push(match r.below(17) {
            0..=5 => Op::Put { id: id(r), kind: r.below(3), back: gen_back(r, &spots) },
            6..=7 => Op::Remove { id: id(r) },
            8 => Op::Get { id: id(r) },
            16 if r.chance(1, 2) => Op::Odd { id: id(r), kind: r.below(3), how: r.below(3) as u8, load: r.chance(1, 3) },
            9 => Op::Icon { back: r.chance(2, 3).then(|| gen_back(r, &spots)) },
            10 => Op::Vanish(r.below(spots.len())),
            11 => Op::Appear(r.below(spots.len())),
            12..=13 => Op::SaveLoad { file_level: r.chance(1, 4) },
            _ => {
                let files = r.chance(4, 5).then(|| gen_files(r, &mut spots, &res, icon));
                Op::Load { files }
            }
        });
    }
    let faults = if r.chance(1, 2) {
        (0..r.range(1, 4))
            .map(|_| {
                let kind = *r.pick(&[Fault::Vanish, Fault::Appear, Fault::Eio, Fault::Eacces, Fault::Stall]);
                let arg = if matches!(kind, Fault::Vanish | Fault::Appear) { r.below(spots.len()) as u64 } else { r.next() >> 12 };
                let busy: Vec<usize> = (0..n).filter(|i| matches!(&ops[*i], Op::Put { back: Back::Path(_), .. } | Op::Load { files: Some(_) } | Op::SaveLoad { .. })).collect();
                let op = if busy.is_empty() { r.below(n) } else { *r.pick(&busy) };
                FaultSpec { op: op as u32, at: if r.chance(1, 2) { 1 } else { r.range(1, 4) as u32 }, kind, arg }
            })
            .collect()
    } else {
        vec![]
    };
    let place = if r.chance(1, 3) { (r.below(4), r.below(4)) } else { (0, 0) };
    Scn { entropy: r.next() >> 12, style: r.next() >> 12, place, spots, res, icon, ops, faults }
}

fn valid(s: &Scn) -> bool {
    let n = s.spots.len();
    let back = |b: &Back| match b {
        Back::Path(i) => *i < n,
        Back::Str(i, f, t) => !i.is_empty() && !f.is_empty() && *t < 4,
        Back::Num(_, f, t) => !f.is_empty() && *t < 4,
    };
    let mut seen = BTreeSet::new();
    let mut names = BTreeSet::new();
    let mut fulls = BTreeSet::new();
    n > 0
        && s.place.0 < 4
        && s.place.1 < 4
        && s.spots.iter().all(|x| x.dir < 5 && x.state < 5 && !x.name.is_empty() && !x.name.contains(['/', '\0']) && x.name != "." && x.name != ".." && seen.insert((x.dir, x.name.clone())))
        && s.res.iter().enumerate().all(|(k, v)| v.iter().all(|(a, b)| !a.is_empty() && !b.is_empty() && names.insert(a.clone()) && fulls.insert((k, b.clone()))))
        && s.ops.len() <= 40
        && s.ops.iter().all(|o| match o {
            Op::Put { id, kind, back: b } => !id.is_empty() && *kind < 3 && back(b),
            Op::Odd { id, kind, how, .. } => !id.is_empty() && *kind < 3 && *how < 3,
            Op::Remove { id } | Op::Get { id } => !id.is_empty(),
            Op::Icon { back: b } => b.as_ref().map_or(true, back),
            Op::Vanish(i) | Op::Appear(i) => *i < n,
            Op::SaveLoad { .. } => true,
            Op::Load { files } => files.as_ref().map_or(true, |f| {
                let mut icons = 0;
                let mut u = BTreeSet::new();
                f.iter().all(|b| {
                    back(b) && {
                        let (k, full) = match b {
                            Back::Path(i) => (s.spots[*i].dir, s.spots[*i].name.clone()),
                            Back::Str(_, f, t) | Back::Num(_, f, t) => (*t as usize, f.clone()),
                        };
                        icons += (k == 3) as u32;
                        u.insert((k, full))
                    }
                }) && icons <= 1
            }),
        })
        && s.faults.iter().all(|f| !f.kind.is_crash() && (!matches!(f.kind, Fault::Vanish | Fault::Appear) || (f.arg as usize) < n))
}

fn spot_path(c: &Scn, i: usize) -> String {
    let s = &c.spots[i];
    format!("{}/.sketchware/resources/{}/{}/{}", PLACES[c.place.0], DIRS[s.dir], PROJECTS[c.place.1], s.name)
}

fn wrap(b: &Back, s: &Scn) -> ResourceFileWrapper {
    let t = |t: u8| [ResourceType::Image, ResourceType::Sound, ResourceType::Font, ResourceType::CustomIcon][t as usize];
    match b {
        Back::Path(i) => ResourceFileWrapper::Path(format!("{PREFIX}{}", spot_path(s, *i)).into()),
        Back::Str(i, f, k) => ResourceFileWrapper::StringId { id: i.clone(), res_full_name: f.clone(), res_type: t(*k) },
        Back::Num(i, f, k) => ResourceFileWrapper::U32Id { id: *i, res_full_name: f.clone(), res_type: t(*k) },
    }
}

fn full_name(b: &Back, s: &Scn) -> String {
    match b {
        Back::Path(i) => s.spots[*i].name.clone(),
        Back::Str(_, f, _) | Back::Num(_, f, _) => f.clone(),
    }
}

/// kind a file counts as when a project is loaded; 4: none
fn loaded_as(b: &Back, s: &Scn) -> usize {
    match b {
        Back::Path(i) => s.spots[*i].dir,
        Back::Str(_, _, t) | Back::Num(_, _, t) => *t as usize,
    }
}

/// the reference: per kind (id, backing file) in order
#[derive(Clone, Debug, Default)]
struct Reg {
    kinds: [Vec<(String, Back)>; 3],
    icon: Option<Back>,
    /// loaded without files: nobody knows what the wrappers are
    anonymous: bool,
}

impl Reg {
    fn find(&self, id: &str) -> Option<(usize, usize)> {
        (0..3).find_map(|k| self.kinds[k].iter().position(|x| x.0 == id).map(|i| (k, i)))
    }
}

/// whether the wrapper is this backing file; where the kind of an imaginary file is rewritten it is `kind`
fn matches(w: &ResourceFileWrapper, b: &Back, kind: Option<usize>, s: &Scn, anonymous: bool) -> bool {
    let mut b = b.clone();
    if let (Some(k), Back::Str(_, _, t) | Back::Num(_, _, t)) = (kind, &mut b) {
        *t = k as u8;
    }
    if anonymous {
        return w.get_full_name() == full_name(&b, s);
    }
    *w == wrap(&b, s)
}

fn compare(p: &SketchwareProject, reg: &Reg, s: &Scn) -> Result<(), String> {
    let got = [p.resources.get_images(), p.resources.get_sounds(), p.resources.get_fonts()];
    for k in 0..3 {
        let ids: Vec<&String> = got[k].iter().map(|(i, _)| &i.0).collect();
        let want: Vec<&String> = reg.kinds[k].iter().map(|x| &x.0).collect();
        if ids != want {
            return Err(format!("{} are {ids:?} instead of {want:?}", DIRS[k]));
        }
        for (id, b) in &reg.kinds[k] {
            let (w, t) = match p.resources.get_resource(&ResourceId(id.clone())) {
                Some(x) => x,
                None => return Err(format!("resource {id} cannot be looked up")),
            };
            if t != res_type(k) {
                return Err(format!("resource {id} is looked up as {t:?}, it is one of the {}", DIRS[k]));
            }
            let listed = got[k].get(&ResourceId(id.clone()));
            let anon = reg.anonymous && matches!(b, Back::Num(_, _, 99));
            if listed != Some(w) || !matches(w, b, Some(k), s, anon) {
                return Err(format!("resource {id} is {w:?} instead of {b:?} ({listed:?} in the list)"));
            }
        }
    }
    let icon_ok = match (&p.custom_icon, &reg.icon) {
        (None, None) => true,
        (Some(w), Some(b)) => matches!(b, Back::Num(_, _, 99)) || matches(w, b, None, s, false),
        _ => false,
    };
    if !icon_ok {
        return Err(format!("the icon is {:?} instead of {:?}", p.custom_icon, reg.icon));
    }
    Ok(())
}

/// (may it have been found, may it have been missed) during the last call
fn findable(path: &str, before: bool) -> (bool, bool) {
    let w = world();
    let after = w.fs.exists(path);
    let l: Vec<bool> = w.ctx[0].lookups.iter().filter(|l| l.0 == path).map(|l| l.1).collect();
    if l.is_empty() {
        (before || after, !before || !after)
    } else {
        (l.iter().any(|x| *x), l.iter().any(|x| !*x))
    }
}

fn load(raw: RawSketchwareProject) -> Result<SketchwareProject, String> {
    let p = super::session::parsed(raw).map_err(|e| chain(&e))?;
    SketchwareProject::try_from(p).map_err(|e| chain(&e))
}

/// checks whether loading with these files was right to succeed or fail, and what came out
fn judge_load(s: &Scn, res: &[Vec<(String, Back)>; 3], files: &[Back], icon: Option<Back>, ok: bool, before: &[bool]) -> Result<Reg, String> {
    // every real file in the list has to be there
    let mut may_succeed = true;
    let mut may_fail = false;
    for b in files {
        if let Back::Path(i) = b {
            let (found, missed) = findable(&spot_path(s, *i), before[*i]);
            may_succeed &= found;
            may_fail |= missed;
            if s.spots[*i].dir == 4 {
                may_fail = true;
            }
        }
    }
    for k in 0..3 {
        for (id, b) in &res[k] {
            if !files.iter().any(|f| loaded_as(f, s) == k && full_name(f, s) == full_name(b, s)) {
                may_succeed = false;
                may_fail = true;
                world().probe("resource without a file");
                world().note(&format!("no file for {id}"));
            }
        }
    }
    if ok && !may_succeed {
        return Err("loaded although a file is missing".into());
    }
    if !ok && !may_fail {
        return Err("refused although every file is there".into());
    }
    let mut reg = Reg { icon, ..Default::default() };
    for k in 0..3 {
        for (id, b) in &res[k] {
            let f = files.iter().find(|f| loaded_as(f, s) == k && full_name(f, s) == full_name(b, s));
            reg.kinds[k].push((id.clone(), f.cloned().unwrap_or_else(|| b.clone())));
        }
    }
    Ok(reg)
}

fn multiset(v: &[ResourceFileWrapper]) -> Vec<String> {
    let mut x: Vec<String> = v.iter().map(|w| format!("{w:?}")).collect();
    x.sort();
    x
}

fn run(s: &Scn) -> Verdict {
    let log = world().log.take();
    let mut w = World::new(s.entropy, s.faults.clone());
    w.log = log;
    for d in DIRS {
        w.fs.mkdirs(&format!("{}/.sketchware/resources/{d}/{}", PLACES[s.place.0], PROJECTS[s.place.1]));
    }
    w.fs.mkdirs("/sdcard");
    w.fs.put("/sdcard/real", b"content");
    for (i, x) in s.spots.iter().enumerate() {
        let p = spot_path(s, i);
        match x.state {
            1 => w.fs.put(&p, b"content"),
            2 => w.fs.symlink(&p, &format!("{PREFIX}/sdcard/real")),
            3 => w.fs.symlink(&p, &format!("{PREFIX}/sdcard/nothing")),
            4 => w.fs.mkdirs(&p),
            _ => {}
        }
    }
    w.env_paths = (0..s.spots.len()).map(|i| spot_path(s, i)).collect();
    w.fs.sync_all();
    set_world(w);
    let mut proj = Proj { icon: s.icon, ..base() };
    proj.res = s.res.clone();
    let texts = sketch::write(&proj, &mut Rng::new(s.style));
    let raw = |files: Option<Vec<ResourceFileWrapper>>| super::session::raw(&texts, files);

    let mut reg = Reg::default();
    let mut api = match sut(|| SketchwareProject::new(crate::bridge::meta_out(&proj.meta), crate::bridge::colors_out(&proj.colors), vec![], vec![], crate::bridge::libs_out(&proj.libs), Resources::new_empty())) {
        Ok(p) => p,
        Err(e) => return bad("panic", e),
    };
    for (i, o) in s.ops.iter().enumerate() {
        let before: Vec<bool> = (0..s.spots.len()).map(|i| world().fs.exists(&spot_path(s, i))).collect();
        world().begin(0, i as u32, &format!("{o:?}"));
        let fail = |class: &str, m: String| bad(class, format!("op {i} {o:?}: {m}"));
        match o {
            Op::Vanish(k) => {
                world().fs.remove(&spot_path(s, *k));
                *world().stats.faults.entry("FileRemoved".into()).or_default() += 1;
            }
            Op::Appear(k) => {
                let p = spot_path(s, *k);
                if !world().fs.exists(&p) {
                    world().fs.remove(&p);
                    world().fs.put(&p, b"x");
                }
                *world().stats.faults.entry("FileCreated".into()).or_default() += 1;
            }
            Op::Put { id, kind, back } => {
                // two resources with one file name cannot be told apart in a saved project
                if reg.kinds[*kind].iter().any(|x| full_name(&x.1, s) == full_name(back, s)) {
                    continue;
                }
                let taken = reg.find(id).is_some();
                let wr = wrap(back, s);
                let r = match sut(|| api.resources.put_resource(ResourceId(id.clone()), wr, res_type(*kind))) {
                    Err(e) => return fail("panic", e),
                    Ok(r) => r,
                };
                let (found, missed) = match back {
                    Back::Path(k) => findable(&spot_path(s, *k), before[*k]),
                    _ => (true, false),
                };
                world().note(&format!("=> {}", if r.is_ok() { "accepted" } else { "refused" }));
                match r {
                    Ok(()) => {
                        if taken {
                            return fail("id-taken", "accepted although the id refers to another resource".into());
                        }
                        if !found {
                            return fail("missing-file", "accepted although the file could not be found".into());
                        }
                        reg.kinds[*kind].push((id.clone(), back.clone()));
                        world().probe("resource accepted");
                    }
                    Err(e) => {
                        let _ = e.to_string();
                        let right = match e {
                            ResourceAdditionError::IdTaken { .. } => taken,
                            ResourceAdditionError::FileDoesntExist { .. } => missed,
                            #[allow(unreachable_patterns)]
                            _ => false,
                        };
                        if !right {
                            return fail("refused", format!("refused without a reason: {e:?}"));
                        }
                        world().probe(if taken { "refused: id taken" } else { "refused: no file" });
                    }
                }
            }
            Op::Odd { id, kind, how, load: in_load } => {
                use std::os::unix::ffi::OsStringExt;
                let dir = format!("{}/.sketchware/resources/{}/{}", PLACES[s.place.0], DIRS[*kind], PROJECTS[s.place.1]);
                world().fs.mkdirs(&dir);
                let mut path = format!("{PREFIX}{dir}/").into_bytes();
                match how {
                    0 => path.extend(b".."),
                    1 => path.extend(b"n\xff\xfe.png"),
                    _ => path.extend(b"\xe9t\xe9.png"),
                }
                if *how == 1 {
                    world().fs.put(&format!("{dir}/n\u{f7ff}\u{f7fe}.png"), b"x");
                }
                let wr = ResourceFileWrapper::Path(std::ffi::OsString::from_vec(path).into());
                if *in_load {
                    // it can't belong to a resource
                    if let Err(e) = sut(|| load(raw(Some(vec![wr]))).map(|_| ())) {
                        return fail("panic", e);
                    }
                } else {
                    let mut p = api.clone();
                    let r = match sut(|| p.resources.put_resource(ResourceId(id.clone()), wr, res_type(*kind)).is_ok()) {
                        Err(e) => return fail("panic", e),
                        Ok(r) => r,
                    };
                    if r && (*how == 2 || reg.find(id).is_some()) {
                        return fail("odd-path", "accepted although the id is taken or there is no such file".into());
                    }
                    if r {
                        if let Err(e) = sut(|| {
                            let r: Result<RawSketchwareProject, _> = p.try_into();
                            r.map(|_| ()).map_err(|e: parser::SketchwareProjectReconstructionError| e.to_string())
                        }) {
                            return fail("panic", format!("the path was accepted, but the project can't be saved: {e}"));
                        }
                    } else if let Err(e) = compare(&p, &reg, s) {
                        return fail("refused-but-changed", e);
                    }
                }
                world().probe("path without a usable name");
            }
            Op::Remove { id } => {
                let r = match sut(|| api.resources.remove_resource(&ResourceId(id.clone()))) {
                    Err(e) => return fail("panic", e),
                    Ok(r) => r,
                };
                match (r, reg.find(id)) {
                    (None, None) => {}
                    (Some((w, t)), Some((k, at))) => {
                        let (_, b) = reg.kinds[k].remove(at);
                        let anon = matches!(b, Back::Num(_, _, 99));
                        if t != res_type(k) || !matches(&w, &b, Some(k), s, anon) {
                            return fail("removed", format!("removed {w:?} as {t:?} instead of {b:?} of the {}", DIRS[k]));
                        }
                        world().probe("resource removed");
                    }
                    (r, m) => return fail("removed", format!("got {r:?}, the registry has {m:?}")),
                }
            }
            Op::Get { id } => {
                let r = match sut(|| api.resources.get_resource(&ResourceId(id.clone())).is_some()) {
                    Err(e) => return fail("panic", e),
                    Ok(r) => r,
                };
                if r != reg.find(id).is_some() {
                    return fail("lookup", format!("found: {r}"));
                }
            }
            Op::Icon { back } => {
                api.custom_icon = back.as_ref().map(|b| wrap(b, s));
                reg.icon = back.clone();
            }
            Op::Load { files } => match files {
                None => {
                    match sut(|| load(raw(None))) {
                        Err(e) => return fail("panic", e),
                        Ok(Err(e)) => return fail("error", e),
                        Ok(Ok(p)) => api = p,
                    }
                    reg = Reg { anonymous: true, icon: s.icon.then(|| Back::Num(0, "icon.png".into(), 99)), ..Default::default() };
                    for k in 0..3 {
                        reg.kinds[k] = s.res[k].iter().map(|(n, f)| (n.clone(), Back::Num(0, f.clone(), 99))).collect();
                    }
                    world().probe("loaded without files");
                }
                Some(files) => {
                    let ws: Vec<ResourceFileWrapper> = files.iter().map(|b| wrap(b, s)).collect();
                    let r = match sut(|| load(raw(Some(ws)))) {
                        Err(e) => return fail("panic", e),
                        Ok(r) => r,
                    };
                    let want: [Vec<(String, Back)>; 3] = std::array::from_fn(|k| s.res[k].iter().map(|(n, f)| (n.clone(), Back::Str(String::new(), f.clone(), 0))).collect());
                    let icon = files.iter().find(|f| loaded_as(f, s) == 3).cloned();
                    world().note(&format!("=> {}", if r.is_ok() { "loaded" } else { "refused" }));
                    match judge_load(s, &want, files, icon, r.is_ok(), &before) {
                        Err(m) => return fail("load", format!("{m} ({})", r.err().unwrap_or_default())),
                        Ok(g) => {
                            if let Ok(p) = r {
                                api = p;
                                reg = g;
                                world().probe("loaded with files");
                            } else {
                                world().probe("load refused");
                            }
                        }
                    }
                }
            },
            Op::SaveLoad { file_level } => {
                // files put under a kind their folder does not say, or an icon that is not one, cannot be matched on loading
                let plain = (0..3).all(|k| reg.kinds[k].iter().all(|(_, b)| matches!(b, Back::Str(..) | Back::Num(..)) || loaded_as(b, s) == k)) && reg.icon.as_ref().map_or(true, |b| reg.anonymous || loaded_as(b, s) == 3);
                let p = api.clone();
                let r: RawSketchwareProject = match sut(|| p.try_into()) {
                    Err(e) => return fail("panic", e),
                    Ok(Err(e)) => {
                        let e: parser::SketchwareProjectReconstructionError = e;
                        return fail("error", chain(&e));
                    }
                    Ok(Ok(r)) => r,
                };
                let r = if *file_level && plain {
                    // nothing has to be lost at the file level either; it looks files up, too
                    world().begin(0, i as u32, "file level");
                    let x = match sut(|| super::session::parsed(r.clone()).map(|p| -> Result<RawSketchwareProject, parser::SketchwareProjectReconstructionError> { p.try_into() })) {
                        Err(e) => return fail("panic", e),
                        Ok(x) => x,
                    };
                    match x {
                        Ok(Ok(x)) => {
                            if multiset(x.resource_files.as_deref().unwrap_or(&[])) != multiset(r.resource_files.as_deref().unwrap_or(&[])) || x.resource_files.is_some() != r.resource_files.is_some() {
                                return fail("files", format!("files {:?} became {:?} at the file level", r.resource_files, x.resource_files));
                            }
                            x
                        }
                        Ok(Err(e)) => return fail("error", chain(&e)),
                        // whether that was right is judged below
                        Err(_) => r,
                    }
                } else {
                    r
                };
                // what Sketchware sees
                let (q, _) = sketch::read(&texts_of(r.clone()));
                let q = match q {
                    Some(q) => q,
                    None => return fail("unreadable", "what was saved cannot be read".into()),
                };
                for k in 0..3 {
                    let want: Vec<(String, String)> = reg.kinds[k].iter().map(|(n, b)| (n.clone(), full_name(b, s))).collect();
                    if q.res[k] != want {
                        return fail("saved-list", format!("{} were saved as {:?} instead of {want:?}", DIRS[k], q.res[k]));
                    }
                }
                if q.icon != reg.icon.is_some() {
                    return fail("saved-icon", format!("custom icon was saved as {}", q.icon));
                }
                if reg.anonymous {
                    if r.resource_files.is_some() {
                        return fail("files", format!("loaded without files, but saved with {:?}", r.resource_files));
                    }
                } else {
                    let mut want: Vec<ResourceFileWrapper> = vec![];
                    for k in 0..3 {
                        for (_, b) in &reg.kinds[k] {
                            let mut b = b.clone();
                            if let Back::Str(_, _, t) | Back::Num(_, _, t) = &mut b {
                                *t = k as u8;
                            }
                            want.push(wrap(&b, s));
                        }
                    }
                    want.extend(reg.icon.iter().map(|b| wrap(b, s)));
                    match &r.resource_files {
                        None => return fail("files", "loaded with files, but saved without".into()),
                        Some(v) if multiset(v) != multiset(&want) => return fail("files", format!("saved with the files {:?} instead of {:?}", multiset(v), multiset(&want))),
                        _ => {}
                    }
                }
                // and back again
                let files: Vec<Back> = reg
                    .kinds
                    .iter()
                    .enumerate()
                    .flat_map(|(k, v)| {
                        v.iter().map(move |(_, b)| {
                            let mut b = b.clone();
                            if let Back::Str(_, _, t) | Back::Num(_, _, t) = &mut b {
                                if *t != 99 {
                                    *t = k as u8;
                                }
                            }
                            b
                        })
                    })
                    .chain(reg.icon.clone())
                    .collect();
                if !plain {
                    continue;
                }
                let before: Vec<bool> = (0..s.spots.len()).map(|i| world().fs.exists(&spot_path(s, i))).collect();
                world().begin(0, i as u32, "load what was saved");
                let l = match sut(|| load(r)) {
                    Err(e) => return fail("panic", e),
                    Ok(l) => l,
                };
                if reg.anonymous {
                    match l {
                        Err(e) => return fail("error", e),
                        Ok(p) => api = p,
                    }
                    for k in 0..3 {
                        for x in reg.kinds[k].iter_mut() {
                            x.1 = Back::Num(0, full_name(&x.1, s), 99);
                        }
                    }
                    reg.icon = reg.icon.as_ref().map(|_| Back::Num(0, "icon.png".into(), 99));
                } else {
                    match judge_load(s, &reg.kinds, &files, reg.icon.clone(), l.is_ok(), &before) {
                        Err(m) => return fail("load", format!("{m} ({})", l.err().unwrap_or_default())),
                        Ok(g) => {
                            if let Ok(p) = l {
                                api = p;
                                reg = g;
                                world().probe("saved and loaded");
                            }
                        }
                    }
                }
            }
        }
        if let Err(m) = compare(&api, &reg, s) {
            return fail("registry", m);
        }
    }
    Ok(())
}

fn base() -> Proj {
    let mut p = gen_proj(&mut Rng::new(1), Focus::Decl);
    p.screens.clear();
    p.customs.clear();
    p.res = Default::default();
    p
}

#[allow(dead_code)]
fn unused(_: Stop) {}

pub struct Res;

impl Prop for Res {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn runs(&self, tier: u32) -> u64 {
        [100_000, 1_000_000][tier as usize]
    }
    fn gen(&self, rng: &mut Rng, tier: u32) -> Value {
        serde_json::to_value(gen(rng, tier)).unwrap()
    }
    fn valid(&self, scn: &Value) -> bool {
        serde_json::from_value::<Scn>(scn.clone()).map_or(false, |s| valid(&s))
    }
    fn run(&self, scn: &Value) -> Verdict {
        run(&serde_json::from_value::<Scn>(scn.clone()).expect("scenario"))
    }
    fn rule(&self) -> &'static str {
        "A scenario is a simulated disk with resource files, links, folders and gaps, a stored project, a sequence of registry operations, loads with and without files, saves, files that appear and vanish between and during calls, and faults of the look-ups; a reference registry is compared after every operation."
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Two resources of one kind never share a file name (a project cannot tell them apart).".into()]
    }
    fn expected_probes(&self) -> &'static [&'static str] {
        &["resource accepted", "refused: id taken", "refused: no file", "resource removed", "loaded without files", "loaded with files", "load refused", "resource without a file", "saved and loaded"]
    }
}
