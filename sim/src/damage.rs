//! Ways in which stored project data gets damaged.

use crate::aes;
use crate::rng::Rng;
use crate::sketch::Texts;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dmg {
    /// positions are taken modulo what is there
    Cut { f: usize, at: u32 },
    CutLine { f: usize, l: u32 },
    Zero { f: usize, at: u32, len: u32 },
    /// the whole file is of another save
    Stale { f: usize },
    /// the file starts new and ends old, or the other way round
    Mixed { f: usize, at: u32, old_first: bool },
    Dup { f: usize, l: u32, to: u32 },
    Del { f: usize, l: u32 },
    Swap { f: usize, a: u32, b: u32 },
    Cross { f: usize, l: u32, g: usize, m: u32 },
    Bit { f: usize, at: u32, bit: u8 },
    Over { f: usize, at: u32, with: String },
    Ins { f: usize, at: u32, text: String },
    /// replaces the n-th number / string / header line of a file
    Num { f: usize, n: u32, with: String },
    Str { f: usize, n: u32, with: String },
    Head { f: usize, n: u32, with: String },
    Line { f: usize, l: u32, with: String },
    /// removes the n-th `"key":value,`
    Key { f: usize, n: u32 },
    /// gives the n-th string the content of the m-th one, the n-th number the value of the m-th one
    CopyStr { f: usize, n: u32, m: u32 },
    CopyNum { f: usize, n: u32, m: u32 },
    /// lets the n-th link (next block, sub stack, argument, parent) lead to the m-th id near it
    Link { n: u32, m: u32, view: bool },
    /// all line ends
    Crlf { f: usize },
    Empty { f: usize },
    /// of the encrypted file
    EncCut { f: usize, at: u32 },
    EncBit { f: usize, at: u32, bit: u8 },
    EncZero { f: usize, at: u32, len: u32 },
    EncSwap { f: usize, a: u32, b: u32 },
    EncPlain { f: usize },
    EncTwice { f: usize },
}

const NUMS: [&str; 26] = [
    "-1", "0", "1", "2", "3", "4", "5", "127", "128", "255", "256", "-128", "-129", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807",
    "18446744073709551615", "1.5", "1e999", "null", "\"x\"",
];
const STRS: [&str; 40] = [
    "", " ", "@", "@0", "@1", "@2", "@10", "@11", "@-1", "@99999999999", "@é", "%", "%%", "%s", "%d", "%b", "%m", "%m.", "%m.view", "%é", "% s", "%s.", "%s %s %s %s", "%d %b %m.list %", "é", "ß%s", "日本%m.é",
    "\\u0000", "\\n", "root", "-1", "true", "null", ":", "1:", "List Map", "99999999999999", "2020130199", "20201301250000", "éééééééééééééé",
];
const LINES: [&str; 30] = [
    "", "@", "@@", "@.", "@.java", "@.java_", "@.java_var", "@A.java_var", "@A.java_", "@A.java_x", "@é.java_é", "@x.xml", "@x.xml_fab", "@.xml", "@x.", "@xml", "@activity", "@customview", "@images", "@sounds",
    "@fonts", "@firebaseDB", "@compat", "@admob", "@googleMap", "{}", "[]", "null", "1:x", "a:b:c",
];

pub fn gen(r: &mut Rng) -> Dmg {
    let f = if r.chance(1, 2) { r.range(4, 5) } else { r.below(6) };
    let p = |r: &mut Rng| r.below(20_000) as u32;
    let l = |r: &mut Rng| r.below(60) as u32;
    match r.below(36) {
        0 | 1 => Dmg::Cut { f, at: p(r) },
        2 => Dmg::CutLine { f, l: l(r) },
        3 => Dmg::Zero { f, at: p(r), len: r.range(1, 600) as u32 },
        4 => Dmg::Stale { f },
        5 => Dmg::Mixed { f, at: p(r), old_first: r.chance(1, 2) },
        6 => Dmg::Dup { f, l: l(r), to: l(r) },
        7 => Dmg::Del { f, l: l(r) },
        8 => Dmg::Swap { f, a: l(r), b: l(r) },
        9 => Dmg::Cross { f, l: l(r), g: r.below(6), m: l(r) },
        10 => Dmg::Bit { f, at: p(r), bit: r.below(8) as u8 },
        11 => Dmg::Over { f, at: p(r), with: r.pick(&STRS).to_string() },
        12 => Dmg::Ins { f, at: p(r), text: [r.pick(&STRS[..]), r.pick(&LINES[..])][r.below(2)].to_string() },
        13..=16 => Dmg::Num { f, n: p(r), with: r.pick(&NUMS).to_string() },
        17..=19 => Dmg::Str { f, n: p(r), with: r.pick(&STRS).to_string() },
        20 => Dmg::Head { f, n: l(r), with: r.pick(&LINES).to_string() },
        21 => Dmg::Line { f, l: l(r), with: r.pick(&LINES).to_string() },
        22 | 23 => Dmg::Key { f, n: p(r) },
        24 => Dmg::CopyStr { f, n: p(r), m: p(r) },
        25 => Dmg::CopyNum { f, n: p(r), m: p(r) },
        26 => Dmg::Crlf { f },
        27 => Dmg::Empty { f },
        28 => Dmg::EncCut { f, at: p(r) },
        29 => Dmg::EncBit { f, at: p(r), bit: r.below(8) as u8 },
        30 => Dmg::EncZero { f, at: p(r), len: r.range(1, 600) as u32 },
        31..=34 => Dmg::Link { n: p(r), m: r.below(40) as u32, view: r.chance(1, 3) },
        _ => match r.below(3) {
            0 => Dmg::EncSwap { f, a: l(r), b: l(r) },
            1 => Dmg::EncPlain { f },
            _ => Dmg::EncTwice { f },
        },
    }
}

/// damage inside the code or layouts that mostly leaves the rest readable
pub fn gen_inside(r: &mut Rng) -> Dmg {
    let f = if r.chance(3, 4) { 5 } else { 4 };
    match r.below(8) {
        0..=2 => Dmg::Link { n: r.below(200) as u32, m: r.below(40) as u32, view: f == 4 },
        3 => Dmg::Num { f, n: r.below(400) as u32, with: r.pick(&NUMS).to_string() },
        4 => Dmg::CopyNum { f, n: r.below(400) as u32, m: r.below(400) as u32 },
        5 => Dmg::CopyStr { f, n: r.below(400) as u32, m: r.below(400) as u32 },
        _ => Dmg::Del { f, l: r.below(60) as u32 },
    }
}

fn at(n: u32, len: usize) -> usize {
    if len == 0 {
        0
    } else {
        n as usize % len
    }
}

/// ranges of the numbers (outside of strings) and strings (without the quotes) of a text
fn tokens(b: &[u8]) -> (Vec<(usize, usize)>, Vec<(usize, usize)>) {
    let (mut nums, mut strs) = (vec![], vec![]);
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' {
            let s = i + 1;
            i = s;
            while i < b.len() && b[i] != b'"' && b[i] != b'\n' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            strs.push((s, i.min(b.len())));
            i += 1;
        } else if b[i].is_ascii_digit() || b[i] == b'-' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_digit() || matches!(b[i], b'-' | b'.' | b'e' | b'+')) {
                i += 1;
            }
            nums.push((s, i));
        } else {
            i += 1;
        }
    }
    (nums, strs)
}

fn splice(v: &mut Vec<u8>, r: (usize, usize), with: &[u8]) {
    let e = r.1.min(v.len());
    v.splice(r.0.min(e)..e, with.iter().copied());
}

fn lines(v: &[u8]) -> Vec<Vec<u8>> {
    v.split(|c| *c == b'\n').map(|l| l.to_vec()).collect()
}

fn join(l: Vec<Vec<u8>>) -> Vec<u8> {
    l.join(&b'\n')
}

/// the plain damage; `old` is another save
fn plain(d: &Dmg, t: &mut [Vec<u8>; 6], old: &Texts) {
    match d {
        Dmg::Cut { f, at: a } => {
            let n = at(*a, t[*f].len() + 1);
            t[*f].truncate(n);
        }
        Dmg::CutLine { f, l } => {
            let mut v = lines(&t[*f]);
            let n = at(*l, v.len() + 1);
            v.truncate(n);
            t[*f] = join(v);
        }
        Dmg::Zero { f, at: a, len } => {
            let v = &mut t[*f];
            let s = at(*a, v.len());
            let e = (s + *len as usize).min(v.len());
            v[s..e].fill(0);
        }
        Dmg::Stale { f } => t[*f] = old[*f].clone().into_bytes(),
        Dmg::Mixed { f, at: a, old_first } => {
            let new = t[*f].clone();
            let old = old[*f].as_bytes();
            let n = at(*a, new.len().max(old.len()) + 1);
            let (x, y) = if *old_first { (old, &new[..]) } else { (&new[..], old) };
            let mut v = x[..n.min(x.len())].to_vec();
            v.extend_from_slice(&y[n.min(y.len())..]);
            t[*f] = v;
        }
        Dmg::Dup { f, l, to } => {
            let mut v = lines(&t[*f]);
            let x = v[at(*l, v.len())].clone();
            let to = at(*to, v.len() + 1);
            v.insert(to, x);
            t[*f] = join(v);
        }
        Dmg::Del { f, l } => {
            let mut v = lines(&t[*f]);
            let n = at(*l, v.len());
            v.remove(n);
            t[*f] = join(v);
        }
        Dmg::Swap { f, a, b } => {
            let mut v = lines(&t[*f]);
            let (a, b) = (at(*a, v.len()), at(*b, v.len()));
            v.swap(a, b);
            t[*f] = join(v);
        }
        Dmg::Cross { f, l, g, m } => {
            let from = lines(&t[*g]);
            let x = from[at(*m, from.len())].clone();
            let mut v = lines(&t[*f]);
            let n = at(*l, v.len() + 1);
            v.insert(n, x);
            t[*f] = join(v);
        }
        Dmg::Bit { f, at: a, bit } => {
            let v = &mut t[*f];
            if !v.is_empty() {
                let n = at(*a, v.len());
                v[n] ^= 1 << (bit % 8);
            }
        }
        Dmg::Over { f, at: a, with } => {
            let s = at(*a, t[*f].len() + 1);
            splice(&mut t[*f], (s, s + with.len()), with.as_bytes());
        }
        Dmg::Ins { f, at: a, text } => {
            let s = at(*a, t[*f].len() + 1);
            splice(&mut t[*f], (s, s), text.as_bytes());
        }
        Dmg::Num { f, n, with } => {
            let x = tokens(&t[*f]).0;
            if !x.is_empty() {
                splice(&mut t[*f], x[at(*n, x.len())], with.as_bytes());
            }
        }
        Dmg::Str { f, n, with } => {
            let x = tokens(&t[*f]).1;
            if !x.is_empty() {
                splice(&mut t[*f], x[at(*n, x.len())], with.as_bytes());
            }
        }
        Dmg::Head { f, n, with } => {
            let mut v = lines(&t[*f]);
            let h: Vec<usize> = (0..v.len()).filter(|i| v[*i].first() == Some(&b'@')).collect();
            if !h.is_empty() {
                v[h[at(*n, h.len())]] = with.clone().into_bytes();
            }
            t[*f] = join(v);
        }
        Dmg::Line { f, l, with } => {
            let mut v = lines(&t[*f]);
            let n = at(*l, v.len());
            v[n] = with.clone().into_bytes();
            t[*f] = join(v);
        }
        Dmg::Key { f, n } => {
            let x = tokens(&t[*f]).1;
            let v = &t[*f];
            let keys: Vec<(usize, usize)> = x.into_iter().filter(|s| v.get(s.1 + 1) == Some(&b':')).collect();
            if !keys.is_empty() {
                let k = keys[at(*n, keys.len())];
                let mut e = k.1;
                while e < v.len() && !matches!(v[e], b',' | b'}' | b'\n') {
                    e += 1;
                }
                if v.get(e) == Some(&b',') {
                    e += 1;
                }
                splice(&mut t[*f], (k.0 - 1, e), b"");
            }
        }
        Dmg::CopyStr { f, n, m } => {
            let x = tokens(&t[*f]).1;
            if !x.is_empty() {
                let (a, b) = (x[at(*n, x.len())], x[at(*m, x.len())]);
                let w = t[*f][b.0..b.1].to_vec();
                splice(&mut t[*f], a, &w);
            }
        }
        Dmg::CopyNum { f, n, m } => {
            let x = tokens(&t[*f]).0;
            if !x.is_empty() {
                let (a, b) = (x[at(*n, x.len())], x[at(*m, x.len())]);
                let w = t[*f][b.0..b.1].to_vec();
                splice(&mut t[*f], a, &w);
            }
        }
        Dmg::Link { n, m, view } => {
            let f = if *view { 4 } else { 5 };
            let mut v = lines(&t[f]);
            let keys: &[&str] = if *view { &["\"parent\":\""] } else { &["\"nextBlock\":", "\"subStack1\":", "\"subStack2\":", "\"@"] };
            let find = |l: &[u8], k: &str| l.windows(k.len()).position(|w| w == k.as_bytes()).map(|i| i + k.len());
            let mut spots = vec![];
            for (i, l) in v.iter().enumerate() {
                for k in keys {
                    if let Some(at) = find(l, k) {
                        spots.push((i, at));
                    }
                }
            }
            if spots.is_empty() {
                return;
            }
            let (i, s) = spots[at(*n, spots.len())];
            // ids of the same section
            let (mut a, mut b) = (i, i);
            while a > 0 && !v[a - 1].is_empty() && v[a - 1][0] != b'@' {
                a -= 1;
            }
            while b + 1 < v.len() && !v[b + 1].is_empty() && v[b + 1][0] != b'@' {
                b += 1;
            }
            let ids: Vec<Vec<u8>> = (a..=b)
                .filter_map(|j| {
                    let s = find(&v[j], "\"id\":\"")?;
                    let e = v[j][s..].iter().position(|c| *c == b'"')?;
                    Some(v[j][s..s + e].to_vec())
                })
                .collect();
            if ids.is_empty() {
                return;
            }
            let id = ids[at(*m, ids.len())].clone();
            let mut e = s;
            while e < v[i].len() && !matches!(v[i][e], b',' | b'}' | b'"' | b']') {
                e += 1;
            }
            splice(&mut v[i], (s, e), &id);
            t[f] = join(v);
        }
        Dmg::Crlf { f } => t[*f] = lines(&t[*f]).join(&b"\r\n"[..]),
        Dmg::Empty { f } => t[*f].clear(),
        _ => {}
    }
}

fn encrypted(d: &Dmg, c: &mut [Vec<u8>; 6]) {
    match d {
        Dmg::EncCut { f, at: a } => {
            let n = at(*a, c[*f].len() + 1);
            c[*f].truncate(n);
        }
        Dmg::EncBit { f, at: a, bit } => {
            let n = at(*a, c[*f].len());
            if let Some(b) = c[*f].get_mut(n) {
                *b ^= 1 << (bit % 8);
            }
        }
        Dmg::EncZero { f, at: a, len } => {
            let v = &mut c[*f];
            let s = at(*a, v.len());
            let e = (s + *len as usize).min(v.len());
            v[s..e].fill(0);
        }
        Dmg::EncSwap { f, a, b } => {
            let v = &mut c[*f];
            let n = v.len() / 16;
            if n > 0 {
                let (a, b) = (at(*a, n), at(*b, n));
                for i in 0..16 {
                    v.swap(a * 16 + i, b * 16 + i);
                }
            }
        }
        Dmg::EncPlain { f } => c[*f] = aes::decrypt(&c[*f]).unwrap_or_default(),
        Dmg::EncTwice { f } => c[*f] = aes::encrypt(&c[*f]),
        _ => {}
    }
}

/// the plain files (not necessarily text any more) and the encrypted ones
pub fn apply(d: &[Dmg], t: &Texts, old: &Texts) -> ([Vec<u8>; 6], [Vec<u8>; 6]) {
    let mut p: [Vec<u8>; 6] = std::array::from_fn(|k| t[k].clone().into_bytes());
    for x in d {
        plain(x, &mut p, old);
    }
    let mut c: [Vec<u8>; 6] = std::array::from_fn(|k| aes::encrypt(&p[k]));
    for x in d {
        encrypted(x, &mut c);
    }
    (p, c)
}

pub fn ok(d: &Dmg) -> bool {
    match d {
        Dmg::Link { .. } => true,
        Dmg::Cross { f, g, .. } => *f < 6 && *g < 6,
        Dmg::Cut { f, .. }
        | Dmg::CutLine { f, .. }
        | Dmg::Zero { f, .. }
        | Dmg::Stale { f }
        | Dmg::Mixed { f, .. }
        | Dmg::Dup { f, .. }
        | Dmg::Del { f, .. }
        | Dmg::Swap { f, .. }
        | Dmg::Bit { f, .. }
        | Dmg::Over { f, .. }
        | Dmg::Ins { f, .. }
        | Dmg::Num { f, .. }
        | Dmg::Str { f, .. }
        | Dmg::Head { f, .. }
        | Dmg::Line { f, .. }
        | Dmg::Key { f, .. }
        | Dmg::CopyStr { f, .. }
        | Dmg::CopyNum { f, .. }
        | Dmg::Crlf { f }
        | Dmg::Empty { f }
        | Dmg::EncCut { f, .. }
        | Dmg::EncBit { f, .. }
        | Dmg::EncZero { f, .. }
        | Dmg::EncSwap { f, .. }
        | Dmg::EncPlain { f }
        | Dmg::EncTwice { f } => *f < 6,
    }
}

pub fn kind(d: &Dmg) -> String {
    format!("{d:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
