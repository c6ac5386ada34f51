//! The storage of a project on the simulated disk: generations of six encrypted files and a marker
//! that names the current one. The application around swrs, as it were.

use super::{bad, Verdict};
use crate::aes;
use crate::interpose::PREFIX;
use crate::rng::Rng;
use crate::sketch::{Texts, FILES};
use crate::world::{sut, world, Fault, FaultSpec};
use std::path::PathBuf;

/// why a session stopped
pub enum Stop {
    /// because of an injected fault, or the process died: do it again
    Again,
    Bad(String, String),
}

pub type Step<T> = Result<T, Stop>;

pub fn stop<T>(class: &str, msg: impl Into<String>) -> Step<T> {
    Err(Stop::Bad(class.into(), msg.into()))
}

pub fn hard() -> bool {
    let w = world();
    w.ctx[0].hard > 0 || w.crashed.is_some()
}

/// dead processes do not go on
pub fn alive() -> Step<()> {
    if world().crashed.is_some() {
        Err(Stop::Again)
    } else {
        Ok(())
    }
}

/// runs a call of swrs that has no reason to fail but injected faults
pub fn must<T, E: std::fmt::Display>(what: &str, f: impl FnOnce() -> Result<T, E>) -> Step<T> {
    let r = sut(f);
    let faulty = hard();
    match r {
        Err(p) => {
            // nobody sees the panic of a dead process
            alive()?;
            stop("panic", format!("{what}: panic: {p}"))
        }
        Ok(Err(_)) if faulty => Err(Stop::Again),
        Ok(Err(e)) => stop("error", format!("{what} failed: {e}")),
        Ok(Ok(v)) => {
            alive()?;
            Ok(v)
        }
    }
}

/// the message of an error with everything below it
pub fn chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(": ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}

pub struct Chained(pub String);

impl std::fmt::Display for Chained {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

pub fn chained<E: std::error::Error>(e: E) -> Chained {
    Chained(chain(&e))
}

fn file(gen: u64, k: usize) -> String {
    format!("/store/{gen}/{}", FILES[k])
}

fn real(p: &str) -> PathBuf {
    format!("{PREFIX}{p}").into()
}

pub fn current() -> u64 {
    world().fs.get("/store/CURRENT").and_then(|b| String::from_utf8(b.clone()).ok()).and_then(|s| s.parse().ok()).unwrap_or(0)
}

/// puts six texts as the new current generation, without swrs
pub fn put_by_sketchware(t: &Texts) {
    let g = current() + 1;
    for k in 0..6 {
        world().fs.put(&file(g, k), &aes::encrypt(t[k].as_bytes()));
    }
    world().fs.sync_all();
    mark(g);
}

fn mark(g: u64) {
    let fs = &mut world().fs;
    fs.put("/store/NEXT", g.to_string().as_bytes());
    fs.sync_all();
    fs.rename("/store/NEXT", "/store/CURRENT");
    fs.sync_all();
    if g > 1 {
        for k in 0..6 {
            fs.remove(&file(g - 2, k));
        }
    }
}

pub fn stored(k: usize) -> Option<Vec<u8>> {
    world().fs.get(&file(current(), k)).cloned()
}

/// what Sketchware finds in the current generation
pub fn read_by_sketchware() -> Result<Texts, String> {
    let mut t: Texts = Default::default();
    for k in 0..6 {
        let b = stored(k).ok_or_else(|| format!("{} does not exist", FILES[k]))?;
        let b = aes::decrypt(&b).ok_or_else(|| format!("{} is not a ciphertext", FILES[k]))?;
        t[k] = String::from_utf8(b).map_err(|_| format!("{} is not UTF-8", FILES[k]))?;
    }
    Ok(t)
}

/// loads the six texts through swrs
pub fn load_texts() -> Step<Texts> {
    let g = current();
    let mut t: Texts = Default::default();
    for k in 0..6 {
        let p = real(&file(g, k));
        let b = must(&format!("decrypt_sw_file({})", FILES[k]), || swrs::decrypt_sw_file(&p).map_err(chained))?;
        t[k] = match String::from_utf8(b) {
            Ok(s) => s,
            Err(_) => return stop("decrypted", format!("{} decrypts to something that is not text", FILES[k])),
        };
    }
    Ok(t)
}

/// the six encrypted files, read by the application itself
pub fn load_bytes() -> [Vec<u8>; 6] {
    std::array::from_fn(|k| stored(k).unwrap_or_default())
}

/// saves six texts as a new generation through swrs; only when everything is in place does the
/// new generation become the current one
pub fn save_texts(t: &Texts, how: u8) -> Step<()> {
    let g = current() + 1;
    for k in 0..6 {
        let dst = file(g, k);
        world().fs.mkdirs(&format!("/store/{g}"));
        match how % 3 {
            0 => {
                let src = format!("/work/{}", FILES[k]);
                world().fs.put(&src, t[k].as_bytes());
                must(&format!("encrypt_sw_file_to_file({})", FILES[k]), || swrs::encrypt_sw_file_to_file(&real(&src), Some(&real(&dst))).map_err(chained))?;
            }
            1 => {
                let b = must("encrypt_sw", || Ok::<_, String>(swrs::encrypt_sw(t[k].as_bytes())))?;
                let fs = &mut world().fs;
                fs.put(&dst, &b);
                if let Ok((_, _, Some(i))) = fs.lookup(&dst, true) {
                    fs.sync(i);
                }
            }
            _ => {
                world().fs.put(&dst, t[k].as_bytes());
                must(&format!("encrypt_sw_file_to_file({}, in place)", FILES[k]), || swrs::encrypt_sw_file_to_file(&real(&dst), None).map_err(chained))?;
            }
        }
    }
    // the application makes the names durable; the contents have to be already
    let fs = &mut world().fs;
    if let Ok((_, _, Some(i))) = fs.lookup(&format!("/store/{g}"), true) {
        fs.sync(i);
    }
    let cut = fs.power_loss(&mut Rng::new(g));
    for k in 0..6 {
        let b = cut.get(&file(g, k)).map(|b| aes::decrypt(b).map(|b| b == t[k].as_bytes()));
        match b {
            Some(Some(true)) => {}
            Some(None) => return stop("stored", format!("{} was saved, but what is on the disk is not a ciphertext", FILES[k])),
            Some(Some(false)) => return stop("stored", format!("{} was saved, but decrypts to something else", FILES[k])),
            None => return stop("stored", format!("{} was saved, but is not there", FILES[k])),
        }
    }
    mark(g);
    Ok(())
}

/// runs one session until it gets through; every fault fires once, so this is bounded
pub fn persist<T>(op: u32, what: &str, faults: usize, mut f: impl FnMut() -> Step<T>) -> Result<T, (String, String)> {
    for attempt in 0..faults + 2 {
        world().begin(0, op, &format!("{what} attempt {attempt}"));
        let r = f();
        let calls = world().ctx[0].calls;
        if calls as u64 > world().fs.call_bound() {
            return bad("unbounded", format!("{what} took {calls} calls"));
        }
        let died = world().end();
        if died {
            world().probe("process died");
        }
        match r {
            Ok(v) if !died => return Ok(v),
            Ok(_) | Err(Stop::Again) => {
                world().probe("session repeated");
            }
            Err(Stop::Bad(c, m)) => return bad(&c, format!("session {op} ({what}): {m}")),
        }
    }
    bad("no-progress", format!("session {op} ({what}) does not get through after faults stopped"))
}

pub fn gen_faults(r: &mut Rng, sessions: usize, span: usize) -> Vec<FaultSpec> {
    let kinds = [Fault::ShortWrite, Fault::ShortRead, Fault::Eintr, Fault::Stall, Fault::Eio, Fault::Enospc, Fault::DiskFull, Fault::Emfile, Fault::Eacces, Fault::Crash, Fault::PowerLoss];
    let n = match r.below(4) {
        0 => 0,
        1 => 1,
        _ => r.range(1, 6),
    };
    (0..n)
        .map(|_| FaultSpec { op: r.below(sessions.max(1)) as u32, at: r.range(1, span) as u32, kind: *r.pick(&kinds), arg: r.next() >> 12 })
        .collect()
}

pub fn faults_ok(f: &[FaultSpec]) -> bool {
    f.len() <= 12 && f.iter().all(|f| !matches!(f.kind, Fault::Vanish | Fault::Appear))
}

/// the power goes off between two sessions
pub fn power_off(seed: u64) {
    let w = world();
    w.fs = w.fs.power_loss(&mut Rng::new(seed));
    w.note("power loss between sessions");
    *w.stats.faults.entry("PowerLossBetween".into()).or_default() += 1;
}

pub fn verdict(r: Result<(), (String, String)>) -> Verdict {
    r
}
