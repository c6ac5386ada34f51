//! Minimises a failing scenario on the level of its JSON: drops elements of arrays, makes numbers
//! and strings smaller, as long as the same class of violation remains.

use serde_json::Value;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Idx(usize),
}

fn paths(v: &Value, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(Step::Idx(i));
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(Step::Key(k.clone()));
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn get_mut<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut c = v;
    for s in p {
        c = match s {
            Step::Key(k) => c.get_mut(k)?,
            Step::Idx(i) => c.get_mut(*i)?,
        };
    }
    Some(c)
}

pub fn shrink(start: &Value, budget: Duration, fails: &mut dyn FnMut(&Value) -> bool) -> Value {
    let end = Instant::now() + budget;
    let mut best = start.clone();
    loop {
        let before = best.to_string().len();
        // shallow structures first
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        ps.sort_by_key(|p| p.len());
        for p in ps {
            if Instant::now() > end {
                return best;
            }
            let node = match get_mut(&mut best, &p) {
                Some(n) => n.clone(),
                None => continue,
            };
            let mut attempt = |best: &mut Value, new: Value| -> bool {
                let mut c = best.clone();
                match get_mut(&mut c, &p) {
                    Some(x) if *x != new => *x = new,
                    _ => return false,
                }
                if Instant::now() < end && fails(&c) {
                    *best = c;
                    true
                } else {
                    false
                }
            };
            match node {
                Value::Array(mut cur) if !cur.is_empty() => {
                    if attempt(&mut best, Value::Array(vec![])) {
                        continue;
                    }
                    let mut chunk = cur.len() / 2;
                    while chunk >= 1 {
                        let mut i = 0;
                        while i < cur.len() {
                            let mut c = cur.clone();
                            c.drain(i..(i + chunk).min(c.len()));
                            if attempt(&mut best, Value::Array(c.clone())) {
                                cur = c;
                            } else {
                                i += chunk;
                            }
                        }
                        chunk /= 2;
                    }
                }
                Value::Number(n) => {
                    if let Some(u) = n.as_u64() {
                        for t in [0, 1, u / 1000, u / 2, u.saturating_sub(1)] {
                            if t < u && attempt(&mut best, Value::from(t)) {
                                break;
                            }
                        }
                    } else if n.as_i64().is_some() || n.as_f64().is_some() {
                        if !attempt(&mut best, Value::from(0)) {
                            attempt(&mut best, Value::from(1));
                        }
                    }
                }
                Value::String(s) if !s.is_empty() => {
                    if attempt(&mut best, Value::from("")) {
                        continue;
                    }
                    let c: Vec<char> = s.chars().collect();
                    if c.len() > 1 {
                        let h: String = c[..c.len() / 2].iter().collect();
                        if !attempt(&mut best, Value::from(h)) {
                            let h: String = c[..1].iter().collect();
                            attempt(&mut best, Value::from(h));
                        }
                    }
                }
                Value::Bool(true) => {
                    attempt(&mut best, Value::Bool(false));
                }
                Value::Object(_) | Value::Null => {
                    attempt(&mut best, Value::Null);
                }
                _ => {}
            }
        }
        if best.to_string().len() >= before {
            return best;
        }
    }
}
