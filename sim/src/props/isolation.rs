//! C10: calls on several threads that share nothing but the process, after and beside calls that
//! fail, panic or meet faults: each of them comes out as if it were alone in a fresh process.

use super::session::{build, raw, texts_of};
use super::store::chain;
use super::{bad, Prop, Verdict};
use crate::damage::{self, Dmg};
use crate::driver::subfork;
use crate::edit::{self, Edit};
use crate::interpose::PREFIX;
use crate::model::{self, gen_proj, Focus, Proj};
use crate::rng::{hash_bytes, mix, Rng};
use crate::sched;
use crate::sketch;
use crate::world::{set_world, sut, world, Fault, FaultSpec, World};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::path::PathBuf;
use swrs::api::{ResourceId, Resources, SketchwareProject};
use swrs::parser::{self, Parsable, RawSketchwareProject, ResourceFileWrapper, ResourceType};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    /// load (possibly damaged), edit, save
    Project { proj: usize, style: u64, dmg: Vec<Dmg>, edits: Vec<Edit>, file_level: bool },
    New { proj: usize, style: u64 },
    /// one of the six files on its own
    File { proj: usize, style: u64, k: usize, dmg: Vec<Dmg> },
    EncBytes { len: u32, #[serde(default)] alt: u8 },
    DecBytes { len: u32, #[serde(default)] alt: u8, cut: u32 },
    EncFile { len: u32, #[serde(default)] alt: u8, in_place: bool, missing: bool, fault: Option<(u32, Fault, u64)> },
    DecFile { len: u32, #[serde(default)] alt: u8, cut: u32, missing: bool, fault: Option<(u32, Fault, u64)> },
    PutRes { exists: bool, twice: bool },
    /// documented to panic
    PutIcon,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scn {
    entropy: u64,
    projs: Vec<Proj>,
    calls: Vec<Call>,
    /// what the process did before: calls and how often
    #[serde(default)]
    before: Vec<(usize, u32)>,
    /// which calls each thread makes
    clients: Vec<Vec<usize>>,
    gaps: Vec<(u32, u8)>,
    first: u8,
    alloc_yield: bool,
    /// the files of the calls of a thread take each other's place
    #[serde(default)]
    same_files: bool,
}

fn gen_fault(r: &mut Rng) -> Option<(u32, Fault, u64)> {
    r.chance(1, 3).then(|| {
        let k = *r.pick(&[Fault::Eio, Fault::Enospc, Fault::DiskFull, Fault::Emfile, Fault::ShortRead, Fault::ShortWrite, Fault::Eintr, Fault::Stall]);
        (r.range(1, 8) as u32, k, r.next() >> 12)
    })
}

fn gen_call(r: &mut Rng, np: usize) -> Call {
    let len = |r: &mut Rng| if r.chance(1, 10) { [8_190, 20_000, 65_530][r.below(3)] } else { [0, 5, 16, 100, 3000, 4_090][r.below(6)] } + r.below(20) as u32;
    let dmg = |r: &mut Rng| {
        let n = if r.chance(1, 3) { r.range(1, 2) } else { 0 };
        (0..n).map(|_| damage::gen(r)).collect::<Vec<_>>()
    };
    match r.below(16) {
        0..=4 => {
            let n = r.small(3);
            Call::Project { proj: r.below(np), style: r.next() >> 12, dmg: dmg(r), edits: (0..n).map(|_| edit::gen(r, Focus::All)).collect(), file_level: r.chance(1, 4) }
        }
        5 => Call::New { proj: r.below(np), style: r.next() >> 12 },
        6..=7 => Call::File { proj: r.below(np), style: r.next() >> 12, k: r.below(6), dmg: dmg(r) },
        8 => Call::EncBytes { len: len(r), alt: 0 },
        9 => Call::DecBytes { len: len(r), alt: 0, cut: if r.chance(1, 2) { 0 } else { r.below(20) as u32 } },
        10..=11 => Call::EncFile { len: len(r), alt: 0, in_place: r.chance(1, 2), missing: r.chance(1, 5), fault: gen_fault(r) },
        12..=13 => Call::DecFile { len: len(r), alt: 0, cut: if r.chance(2, 3) { 0 } else { r.below(20) as u32 }, missing: r.chance(1, 5), fault: gen_fault(r) },
        14 => Call::PutRes { exists: r.chance(1, 2), twice: r.chance(1, 3) },
        _ => Call::PutIcon,
    }
}

fn gen(r: &mut Rng, tier: u32) -> Scn {
    let np = r.range(1, 2);
    let focus = *r.pick(&[Focus::Code, Focus::Views, Focus::Settings, Focus::Decl]);
    let mut projs = vec![];
    for _ in 0..np {
        projs.push(gen_proj(r, focus));
    }
    let nc = r.range(2, 6);
    let mut calls: Vec<Call> = (0..nc).map(|_| gen_call(r, np)).collect();
    // some come twice with data that is nearly the same
    for i in 0..calls.len() {
        if r.chance(1, 3) {
            let mut c = calls[i].clone();
            if let Call::EncBytes { alt, .. } | Call::DecBytes { alt, .. } | Call::EncFile { alt, .. } | Call::DecFile { alt, .. } = &mut c {
                *alt = r.range(1, 255) as u8;
                calls.push(c);
            } else if let Call::Project { dmg, .. } | Call::File { dmg, .. } = &mut c {
                dmg.push(if r.chance(1, 3) { Dmg::Bit { f: if r.chance(1, 2) { 5 } else { r.below(6) }, at: r.below(20_000) as u32, bit: 0 } } else { damage::gen_inside(r) });
                calls.push(c);
            }
        }
    }
    // long histories of cheap calls now and then
    let long = r.chance(1, 12);
    if long {
        calls = vec![Call::EncBytes { len: 20, alt: 0 }, Call::DecBytes { len: 20, alt: 0, cut: 0 }, Call::DecBytes { len: 20, alt: 0, cut: 3 }, gen_call(r, np), gen_call(r, np)];
        for c in calls.iter_mut() {
            if let Call::Project { .. } | Call::New { .. } = c {
                *c = Call::PutRes { exists: true, twice: false };
            }
        }
    }
    // a process that has been running for long, on code that mostly doesn't load
    let old = !long && r.chance(1, 60);
    let mut before = vec![];
    if old {
        let focus = *r.pick(&[Focus::Code, Focus::Code, Focus::Code, Focus::Views, Focus::All]);
        projs = vec![gen_proj(r, focus)];
        for _ in 0..5 {
            let n: usize = sketch::write(&projs[0], &mut Rng::new(1)).iter().map(|t| t.len()).sum();
            if (1500..20_000).contains(&n) {
                break;
            }
            projs = vec![gen_proj(r, focus)];
        }
        let style = r.next() >> 12;
        calls.clear();
        let file_level = r.chance(1, 6);
        for i in 0..4 {
            let dmg = if i == 0 { vec![] } else { vec![if r.chance(2, 3) { damage::gen_inside(r) } else { damage::gen(r) }] };
            calls.push(Call::Project { proj: 0, style, dmg, edits: vec![], file_level });
        }
        calls.push(gen_call(r, 1));
        for k in 1..5 {
            before.push((k, [10, 100, 500, 1500, 1500][r.below(5)] + r.below(50) as u32));
        }
    }
    let nt = if long { r.range(1, 2) } else { r.range(1, 4) };
    let per = if long { r.range(40, 150) } else { r.range(1, if tier > 0 { 6 } else { 4 }) };
    let n = calls.len();
    let clients: Vec<Vec<usize>> = (0..nt).map(|_| (0..r.range(per.div_ceil(2), per)).map(|_| r.below(n)).collect()).collect();
    let alloc_yield = r.chance(2, 3);
    let ng = r.below(80);
    let span = if alloc_yield { [5, 50, 500, 3000][r.below(4)] } else { [2, 4, 10, 40][r.below(4)] };
    Scn { entropy: r.next() >> 12, projs, calls, before, clients, gaps: (0..ng).map(|_| (r.below(span) as u32, r.below(4) as u8)).collect(), first: r.below(4) as u8, alloc_yield, same_files: r.chance(1, 2) }
}

fn valid(s: &Scn) -> bool {
    let np = s.projs.len();
    let fault = |f: &Option<(u32, Fault, u64)>| f.map_or(true, |f| !f.1.is_crash() && !matches!(f.1, Fault::Vanish | Fault::Appear));
    s.projs.iter().all(model::ok)
        && s.before.iter().all(|b| b.0 < s.calls.len() && b.1 <= 10_000)
        && (1..=7).contains(&s.clients.len())
        && s.clients.iter().all(|c| c.len() <= 200 && c.iter().all(|k| *k < s.calls.len()))
        && s.calls.iter().all(|c| match c {
            Call::Project { proj, dmg, .. } => *proj < np && dmg.iter().all(damage::ok),
            Call::New { proj, .. } => *proj < np,
            Call::File { proj, k, dmg, .. } => *proj < np && *k < 6 && dmg.iter().all(damage::ok),
            Call::EncFile { len, fault: f, .. } | Call::DecFile { len, fault: f, .. } => *len < 100_000 && fault(f),
            Call::EncBytes { len, .. } | Call::DecBytes { len, .. } => *len < 100_000,
            _ => true,
        })
}

/// contents of one length start alike
fn bytes(len: u32, alt: u8) -> Vec<u8> {
    let mut s = len as u64 + 5;
    (0..len)
        .map(|i| {
            s = mix(s);
            s as u8 ^ if i >= len / 2 { alt } else { 0 }
        })
        .collect()
}

fn damaged_cipher(len: u32, alt: u8, cut: u32) -> Vec<u8> {
    let mut b = crate::aes::encrypt(&bytes(len, alt));
    b.truncate(b.len() - (cut as usize).min(b.len()));
    b
}

/// the inputs of a call, made by the harness beforehand
#[derive(Clone)]
enum Ready {
    Texts(sketch::Texts),
    Bytes(Vec<u8>),
    Nothing,
}

fn prepare(s: &Scn, c: &Call, dir: &str) -> Ready {
    let fs = &mut world().fs;
    fs.mkdirs(dir);
    match c {
        Call::Project { proj, style, dmg, .. } | Call::File { proj, style, dmg, .. } => {
            let t = sketch::write(&s.projs[*proj], &mut Rng::new(*style));
            let old = sketch::write(&s.projs[0], &mut Rng::new(*style ^ 1));
            let (p, _) = damage::apply(dmg, &t, &old);
            Ready::Texts(std::array::from_fn(|k| String::from_utf8_lossy(&p[k]).into_owned()))
        }
        Call::EncBytes { len, alt } => Ready::Bytes(bytes(*len, *alt)),
        Call::DecBytes { len, alt, cut } => Ready::Bytes(damaged_cipher(*len, *alt, *cut)),
        Call::EncFile { len, alt, missing, .. } => {
            if !missing {
                fs.put(&format!("{dir}/src"), &bytes(*len, *alt));
            }
            Ready::Nothing
        }
        Call::DecFile { len, alt, cut, missing, .. } => {
            if !missing {
                fs.put(&format!("{dir}/src"), &damaged_cipher(*len, *alt, *cut));
            }
            Ready::Nothing
        }
        Call::PutRes { exists, .. } => {
            if *exists {
                fs.put(&format!("{dir}/r.png"), b"x");
            }
            Ready::Nothing
        }
        _ => Ready::Nothing,
    }
}

fn crypto(r: Result<Vec<u8>, swrs::CryptoError>) -> String {
    match r {
        Ok(b) => format!("{} bytes {:x}", b.len(), hash_bytes(1, &b)),
        Err(swrs::CryptoError::IOError(e)) => format!("io error {:?}", e.kind()),
        Err(e) => format!("error {}", chain(&e)),
    }
}

fn saved(r: Result<RawSketchwareProject, parser::SketchwareProjectReconstructionError>) -> String {
    match r {
        Ok(r) => {
            let n = r.resource_files.as_ref().map(|f| f.len());
            format!("saved {:x} {n:?}", texts_of(r).iter().fold(3, |h, t| hash_bytes(h, t.as_bytes())))
        }
        Err(e) => format!("not saved: {}", chain(&e)),
    }
}

fn part<T: Parsable>(t: &str) -> String
where
    T::ParseError: std::error::Error,
    T::ReconstructionError: std::fmt::Debug,
{
    match T::parse(t) {
        Err(e) => format!("refused: {}", chain(&e)),
        Ok(p) => match p.reconstruct() {
            Ok(t) => format!("saved {:x}", hash_bytes(4, t.as_bytes())),
            Err(e) => format!("not saved: {e:?}"),
        },
    }
}

/// the whole outcome of one call, as text
fn perform(s: &Scn, c: &Call, dir: &str, ready: Ready) -> String {
    let real = |n: &str| PathBuf::from(format!("{PREFIX}{dir}/{n}"));
    let r = match (c, ready) {
        (Call::Project { proj, edits, file_level, .. }, Ready::Texts(t)) => sut(|| {
            let p = match super::session::parsed(raw(&t, None)) {
                Ok(p) => p,
                Err(e) => return format!("refused: {}", chain(&e)),
            };
            if *file_level {
                return saved(p.try_into());
            }
            let mut a = match SketchwareProject::try_from(p) {
                Ok(a) => a,
                Err(e) => return format!("refused: {}", chain(&e)),
            };
            let mut m = s.projs[*proj].clone();
            for e in edits {
                // on damaged data an edit may have nothing to work on
                if edit::apply(e, &mut m, Some(&mut a)).is_err() {
                    break;
                }
            }
            saved(a.try_into())
        }),
        (Call::New { proj, style }, _) => sut(|| match build(&s.projs[*proj], *style) {
            Ok(a) => saved(a.try_into()),
            Err(e) => format!("not built: {e}"),
        }),
        (Call::File { k, .. }, Ready::Texts(t)) => in_buffer(t[*k].as_bytes(), |b| {
            let t = std::str::from_utf8(b).unwrap();
            sut(|| match k {
            0 => part::<parser::project::Project>(t),
            1 => part::<parser::file::File>(t),
            2 => part::<parser::library::Library>(t),
            3 => part::<parser::resource::Resource>(t),
            4 => part::<parser::view::View>(t),
            _ => part::<parser::logic::Logic>(t),
        })
        }),
        (Call::EncBytes { .. }, Ready::Bytes(b)) => in_buffer(&b, |b| sut(|| crypto(Ok(swrs::encrypt_sw(b))))),
        (Call::DecBytes { .. }, Ready::Bytes(b)) => in_buffer(&b, |b| sut(|| crypto(swrs::decrypt_sw_encrypted(b)))),
        (Call::EncFile { in_place, .. }, _) => {
            let r = sut(|| swrs::encrypt_sw_file_to_file(&real("src"), if *in_place { None } else { Some(real("dst")) }.as_deref()));
            let n = if *in_place { "src" } else { "dst" };
            let now = world().fs.get(&format!("{dir}/{n}")).map(|b| hash_bytes(1, b));
            r.map(|r| format!("{} {now:x?}", crypto(r.map(|_| vec![]))))
        }
        (Call::DecFile { .. }, _) => sut(|| crypto(swrs::decrypt_sw_file(&real("src")))),
        (Call::PutRes { twice, .. }, _) => sut(|| {
            let mut r = Resources::new_empty();
            let mut put = |id: &str| match r.put_resource(ResourceId(id.into()), ResourceFileWrapper::Path(real("r.png")), ResourceType::Image) {
                Ok(()) => "accepted",
                Err(swrs::api::ResourceAdditionError::IdTaken { .. }) => "taken",
                Err(_) => "missing",
            };
            let a = put("a");
            let b = if *twice { put("a") } else { "" };
            format!("{a} {b} {}", r.get_images().len())
        }),
        (Call::PutIcon, _) => sut(|| {
            let mut r = Resources::new_empty();
            let _ = r.put_resource(ResourceId("i".into()), ResourceFileWrapper::StringId { id: "i".into(), res_full_name: "i.png".into(), res_type: ResourceType::CustomIcon }, ResourceType::CustomIcon);
            "no panic".to_string()
        }),
        _ => unreachable!(),
    };
    match r {
        Ok(o) => o,
        // the message is not part of the outcome
        Err(_) => "panic".into(),
    }
}

fn fault_of(c: &Call) -> Option<(u32, Fault, u64)> {
    match c {
        Call::EncFile { fault, .. } | Call::DecFile { fault, .. } => *fault,
        _ => None,
    }
}

thread_local! {
    /// callers keep their data in one buffer: other data, the same place
    static BUFFER: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![]);
}

fn in_buffer<T>(b: &[u8], f: impl FnOnce(&[u8]) -> T) -> T {
    BUFFER.with(|v| {
        let mut v = v.borrow_mut();
        if v.len() < 1 << 20 {
            *v = vec![0; 1 << 20];
        }
        if b.len() > v.len() {
            return f(b);
        }
        v[..b.len()].copy_from_slice(b);
        f(&v[..b.len()])
    })
}

fn without_fault(c: &Call) -> Call {
    let mut c = c.clone();
    if let Call::EncFile { fault, .. } | Call::DecFile { fault, .. } = &mut c {
        *fault = None;
    }
    c
}

static mut OUT: Vec<(usize, usize, usize, String, bool)> = vec![];

#[allow(static_mut_refs)]
fn outcomes() -> &'static mut Vec<(usize, usize, usize, String, bool)> {
    unsafe { &mut OUT }
}

fn run(s: &Scn) -> Verdict {
    let log = world().log.take();
    // each call alone, in a process of its own that never did anything else
    let mut alone: Vec<Option<String>> = vec![None; s.calls.len()];
    for &k in s.clients.iter().flatten().chain(s.before.iter().map(|b| &b.0)) {
        if alone[k].is_some() {
            continue;
        }
        let b = subfork(|| {
            set_world(World::new(mix(s.entropy + k as u64), vec![]));
            let c = without_fault(&s.calls[k]);
            let r = prepare(s, &c, "/alone");
            world().begin(0, 0, "alone");
            perform(s, &c, "/alone", r).into_bytes()
        });
        alone[k] = Some(match b {
            Ok(b) => String::from_utf8(b).unwrap(),
            Err(e) => return bad("abort", format!("call {k} alone: {e}")),
        });
    }
    if !s.before.is_empty() {
        set_world(World::new(s.entropy ^ 7, vec![]));
        for (j, (k, n)) in s.before.iter().enumerate() {
            let c = without_fault(&s.calls[*k]);
            let (dir, want) = (format!("/b{j}"), alone[*k].as_ref().unwrap());
            let texts = prepare(s, &c, &dir);
            for i in 0..*n {
                let r = match &texts {
                    Ready::Nothing => prepare(s, &c, &dir),
                    t => t.clone(),
                };
                world().begin(0, 0, "before");
                let o = perform(s, &c, &dir, r);
                if o != *want {
                    return bad("influenced", format!("call {k} ({c:?}) came out as `{o}` the {}. time; alone: `{want}`", i + 1));
                }
            }
        }
    }
    let mut faults = vec![];
    for (c, list) in s.clients.iter().enumerate() {
        for (i, k) in list.iter().enumerate() {
            if let Some((at, kind, arg)) = fault_of(&s.calls[*k]) {
                faults.push(FaultSpec { op: (c * 1000 + i) as u32, at, kind, arg });
            }
        }
    }
    let mut w = World::new(s.entropy, faults);
    w.log = log;
    set_world(w);
    let scn: &'static Scn = Box::leak(Box::new(s.clone()));
    let mut clients: Vec<Box<dyn FnOnce(usize) + Send>> = vec![];
    for (c, list) in scn.clients.iter().enumerate() {
        // inputs are made before anything runs
        let mut ready: Vec<(usize, usize, String, Ready)> = list
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let dir = format!("/c{c}_{i}");
                let r = prepare(scn, &scn.calls[*k], &dir);
                (i, *k, dir, r)
            })
            .collect();
        clients.push(Box::new(move |t| {
            for (i, k, mut dir, mut r) in ready.drain(..) {
                if scn.same_files && matches!(r, Ready::Nothing) {
                    dir = format!("/t{c}");
                    for n in ["src", "dst", "r.png"] {
                        world().fs.remove(&format!("{dir}/{n}"));
                    }
                    r = prepare(scn, &scn.calls[k], &dir);
                }
                world().begin(t, (c * 1000 + i) as u32, &format!("call {k}"));
                let o = perform(scn, &scn.calls[k], &dir, r);
                let w = world();
                w.note(&format!("t{t} call {k} => {o}"));
                outcomes().push((c, i, k, o, w.ctx[t].hard > 0));
                sched::yield_point();
            }
        }));
    }
    crate::world::SIM_ID.set(-1);
    sched::run_threads(clients, s.gaps.clone(), s.first as usize, s.alloc_yield);
    crate::world::SIM_ID.set(0);
    let w = world();
    for (c, i, k, o, hard) in outcomes().iter() {
        let want = alone[*k].as_ref().unwrap();
        if *hard {
            // with a fault it may fail, or get around it
            w.probe("a call met a fault");
            if o == want || o.starts_with("io error") {
                continue;
            }
            return bad("faulted", format!("thread {c} call {i} ({:?}) met a fault and came out as `{o}`; without it: `{want}`", s.calls[*k]));
        }
        if o.starts_with("panic") {
            w.probe("a call panicked");
        }
        if o.contains("refused") || o.contains("error") {
            w.probe("a call failed");
        }
        if o != want {
            return bad("influenced", format!("thread {c} call {i} ({:?}) came out as `{o}`; alone: `{want}`", s.calls[*k]));
        }
        w.probe("compared with the call alone");
    }
    if outcomes().len() != s.clients.iter().map(|c| c.len()).sum::<usize>() {
        return bad("lost", "not every call returned");
    }
    if s.before.iter().map(|b| b.1).sum::<u32>() > 1000 {
        w.probe("after more than 1000 earlier calls");
    }
    if outcomes().len() > 60 {
        w.probe("long history");
    }
    Ok(())
}

pub struct Isolation;

impl Prop for Isolation {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn runs(&self, tier: u32) -> u64 {
        [20_000, 300_000][tier as usize]
    }
    fn gen(&self, rng: &mut Rng, tier: u32) -> Value {
        serde_json::to_value(gen(rng, tier)).unwrap()
    }
    fn valid(&self, scn: &Value) -> bool {
        serde_json::from_value::<Scn>(scn.clone()).map_or(false, |s| valid(&s))
    }
    fn run(&self, scn: &Value) -> Verdict {
        run(&serde_json::from_value::<Scn>(scn.clone()).expect("scenario"))
    }
    fn rule(&self) -> &'static str {
        "A scenario is 2 to 6 different calls (load, edit and save a project, healthy or damaged; single data files; encryption and decryption of bytes and of files with faults; resource additions; a call that panics by contract), 1 to 4 threads that make them in some order up to 150 times, and a list of preemptions at file system calls, lock operations and (mostly) allocations. Every call is first made alone in a fresh process; that outcome is the expected one."
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Threads switch at file system calls, lock operations and allocations only.".into(), "Messages of I/O errors and panics are not part of the outcome, their kind is.".into()]
    }
    fn expected_probes(&self) -> &'static [&'static str] {
        &["a call met a fault", "a call panicked", "a call failed", "compared with the call alone", "long history", "after more than 1000 earlier calls"]
    }
}
