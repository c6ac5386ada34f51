//! An independent writer and reader of the six data files, standing in for Sketchware.

use crate::model::*;
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const FILES: [&str; 6] = ["project", "file", "library", "resource", "view", "logic"];

pub type Texts = [String; 6];

fn lib_item(typ: u8, on: bool, data: &str, r1: &str, r2: &str, r3: &str, units: &[(String, String)], dev: &[String]) -> Value {
    json!({
        "adUnits": units.iter().map(|(i, n)| json!({"id": i, "name": n})).collect::<Vec<_>>(),
        "data": data, "libType": typ, "reserved1": r1, "reserved2": r2, "reserved3": r3, "testDevices": dev, "useYn": if on { "Y" } else { "N" }
    })
}

/// JSON as another program may write it: keys in any order
fn line(v: &Value, r: &mut Rng, shuffle: bool) -> String {
    match v {
        Value::Object(o) if shuffle => {
            let mut k: Vec<&String> = o.keys().collect();
            r.shuffle(&mut k);
            let parts: Vec<String> = k.into_iter().map(|k| format!("{}:{}", Value::String(k.clone()), line(&o[k], r, shuffle))).collect();
            format!("{{{}}}", parts.join(","))
        }
        _ => v.to_string(),
    }
}

fn view_json(v: &Vw, parent: Option<(&str, u8)>) -> Value {
    let mut a = v.attrs.clone();
    a.insert("id".into(), json!(v.id));
    a.insert("type".into(), json!(v.typ));
    match parent {
        Some((p, t)) => {
            a.insert("parent".into(), json!(p));
            a.insert("parentType".into(), json!(t));
        }
        None => {
            a.insert("parentType".into(), json!(-1));
        }
    }
    a.into()
}

/// parents before children, siblings in order, otherwise in any order
fn flatten(views: &[Vw], r: &mut Rng, style: usize) -> Vec<Value> {
    let mut out = vec![];
    let mut streams: Vec<(String, u8, std::collections::VecDeque<&Vw>)> = vec![("root".into(), 0, views.iter().collect())];
    while !streams.is_empty() {
        let i = match style {
            0 => streams.len() - 1,
            1 => 0,
            _ => r.below(streams.len()),
        };
        let s = &mut streams[i];
        match s.2.pop_front() {
            None => {
                streams.remove(i);
            }
            Some(v) => {
                out.push(view_json(v, Some((&s.0, s.1))));
                streams.push((v.id.clone(), v.typ, v.children.iter().collect()));
            }
        }
    }
    out
}

fn blocks_json(code: &[Blk], r: &mut Rng) -> Vec<Value> {
    fn count(c: &[Blk]) -> usize {
        c.iter().map(|b| 1 + count(&b.s1) + count(&b.s2) + b.args.iter().map(|a| if let Arg::Blk(b) = a { count(std::slice::from_ref(b)) } else { 0 }).sum::<usize>()).sum()
    }
    let n = count(code);
    let mut ids: Vec<u32> = (0..n as u32).map(|i| 10 + i).collect();
    match r.below(3) {
        0 => {}
        1 => r.shuffle(&mut ids),
        _ => {
            let base = [0, 1, 10, 500, 2_000_000_000][r.below(5)];
            let step = r.range(1, 7) as u32;
            ids = (0..n as u32).map(|i| base + i * step).collect();
            r.shuffle(&mut ids);
        }
    }
    let mut next = 0usize;
    fn seq(code: &[Blk], ids: &[u32], next: &mut usize, out: &mut Vec<Value>) -> i64 {
        let mine: Vec<u32> = code
            .iter()
            .map(|_| {
                *next += 1;
                ids[*next - 1]
            })
            .collect();
        for (i, b) in code.iter().enumerate() {
            one(b, mine[i], mine.get(i + 1).map_or(-1, |x| *x as i64), ids, next, out);
        }
        mine.first().map_or(-1, |x| *x as i64)
    }
    fn one(b: &Blk, id: u32, nb: i64, ids: &[u32], next: &mut usize, out: &mut Vec<Value>) {
        let at = out.len();
        out.push(Value::Null);
        let ps: Vec<String> = b
            .args
            .iter()
            .map(|a| match a {
                Arg::Lit(s) => s.clone(),
                Arg::Blk(x) => {
                    *next += 1;
                    let i = ids[*next - 1];
                    one(x, i, -1, ids, next, out);
                    format!("@{i}")
                }
            })
            .collect();
        let s1 = seq(&b.s1, ids, next, out);
        let s2 = seq(&b.s2, ids, next, out);
        out[at] = json!({
            "color": b.color, "id": id.to_string(), "nextBlock": nb, "opCode": b.op, "parameters": ps, "spec": b.spec, "subStack1": s1, "subStack2": s2,
            "type": b.typ, "typeName": b.tn
        });
    }
    let mut out = vec![];
    seq(code, &ids, &mut next, &mut out);
    if out.len() > 2 && r.chance(1, 2) {
        r.shuffle(&mut out[1..]);
    }
    out
}

fn date(d: &[u32; 6]) -> String {
    format!("{:04}{:02}{:02}{:02}{:02}{:02}", d[0], d[1], d[2], d[3], d[4], d[5])
}

/// `r` decides everything the format leaves open
pub fn write(p: &Proj, r: &mut Rng) -> Texts {
    write_with(p, r, false)
}

/// an entry, rarely one that is there twice
fn twice(out: &mut String, l: &str, r: &mut Rng, wild: bool) {
    *out += l;
    if wild && r.chance(1, 50) {
        *out += l;
    }
}

/// `wild`: also put in what the high-level model does not represent
pub fn write_with(p: &Proj, r: &mut Rng, wild: bool) -> Texts {
    let sh = r.chance(1, 3);
    let m = &p.meta;
    let float = r.chance(1, 4);
    let col = |c: i32| if float && c.unsigned_abs() < 1 << 24 { json!(c as f64) } else { json!(c) };
    let project = json!({
        "sc_id": m.id.to_string(), "my_app_name": m.name, "my_ws_name": m.ws, "my_sc_pkg_name": m.pkg, "sc_ver_code": m.ver_code.to_string(),
        "sc_ver_name": m.ver_name, "my_sc_reg_dt": date(&m.date), "custom_icon": p.icon, "color_primary": col(p.colors[0]),
        "color_primary_dark": col(p.colors[1]), "color_accent": col(p.colors[2]), "color_control_normal": col(p.colors[3]),
        "color_control_highlight": col(p.colors[4]), "sketchware_ver": m.sw
    });
    let nl = r.chance(1, 2);
    let end = |s: String| if nl { s + "\n" } else { s };
    let project = line(&project, r, sh);

    let mut file = String::from("@activity");
    for s in &p.screens {
        let v = json!({"fileName": s.name, "fileType": 0, "keyboardSetting": s.keyboard, "options": s.opts, "orientation": s.orientation, "theme": s.theme});
        twice(&mut file, &format!("\n{}", line(&v, r, sh)), r, wild);
    }
    file += "\n@customview";
    for c in &p.customs {
        let ft = if c.name.starts_with("_drawer_") { 2 } else { 1 };
        let mut v = json!({"fileName": c.name, "fileType": ft, "keyboardSetting": 0, "options": 0, "orientation": 2, "theme": -1});
        if wild && r.chance(1, 2) {
            v["keyboardSetting"] = json!(r.below(3));
            v["options"] = json!(r.below(16));
            v["orientation"] = json!(r.below(3));
            v["theme"] = json!(r.below(4) as i64 - 1);
        }
        twice(&mut file, &format!("\n{}", line(&v, r, sh)), r, wild);
    }

    let l = &p.libs;
    let junk = |r: &mut Rng| if wild && r.chance(1, 2) { text(r) } else { String::new() };
    let (a, b, c, d) = (junk(r), junk(r), junk(r), junk(r));
    let units: Vec<(String, String)> = if wild && r.chance(1, 2) { vec![(text(r), text(r))] } else { vec![] };
    let devs: Vec<String> = if wild && r.chance(1, 2) { vec![text(r)] } else { vec![] };
    let fb = match &l.firebase {
        Some(f) => lib_item(0, true, &f[0], &f[1], &f[2], &f[3], &units, &devs),
        None => lib_item(0, false, &a, &b, &c, &d, &units, &devs),
    };
    let compat = lib_item(1, l.compat, &d, &a, &b, &c, &units, &devs);
    let admob = match &l.admob {
        Some((u, t)) => lib_item(2, true, &b, &c, &d, &a, u, t),
        None => lib_item(2, false, &b, &c, &d, &a, &units, &devs),
    };
    let map = match &l.map {
        Some(k) => lib_item(3, true, k, &a, &b, &c, &units, &devs),
        None => lib_item(3, false, &c, &d, &a, &b, &units, &devs),
    };
    let library = format!("@firebaseDB\n{}\n@compat\n{}\n@admob\n{}\n@googleMap\n{}", line(&fb, r, sh), line(&compat, r, sh), line(&admob, r, sh), line(&map, r, sh));

    let mut resource = String::new();
    for (k, h) in ["@images", "@sounds", "@fonts"].iter().enumerate() {
        if k > 0 {
            resource.push('\n');
        }
        resource += h;
        for (n, f) in &p.res[k] {
            let t = if wild && r.chance(1, 3) { [r.below(4), r.below(256), 255][r.below(3)] } else { 1 };
            let v = json!({"resFullName": f, "resName": n, "resType": t});
            twice(&mut resource, &format!("\n{}", line(&v, r, sh)), r, wild);
        }
    }

    let style = r.below(3);
    let fabs_last = r.chance(1, 2);
    let extra_blank = r.chance(1, 4);
    let mut view = String::new();
    let mut fabs = String::new();
    let blank = |r: &mut Rng| if extra_blank && r.chance(1, 2) { "\n" } else { "" };
    let lay = |view: &mut String, name: &str, v: &[Vw], r: &mut Rng| {
        *view += &format!("@{name}.xml\n");
        for x in flatten(v, r, style) {
            twice(view, &(line(&x, r, sh) + "\n"), r, wild);
        }
        view.push('\n');
        *view += blank(r);
    };
    let skip_empty = r.chance(1, 2);
    for s in &p.screens {
        if !s.views.is_empty() || !skip_empty {
            lay(&mut view, &s.name, &s.views, r);
        }
        if let Some(f) = &s.fab {
            let t = format!("@{}.xml_fab\n{}\n\n", s.name, line(&view_json(f, None), r, sh));
            if fabs_last {
                fabs += &t;
            } else {
                view += &t;
            }
        }
    }
    for c in &p.customs {
        lay(&mut view, &c.name, &c.views, r);
    }
    if wild && r.chance(1, 3) {
        let v = gen_views(r, 2, &mut BTreeSet::new());
        lay(&mut view, "orphan_layout", &v, r);
    }
    view += &fabs;

    // pools by kind over all screens, then the code, as Sketchware does
    let mut logic = String::new();
    let sect = |logic: &mut String, head: String, lines: Vec<String>, r: &mut Rng, skip: bool| {
        if lines.is_empty() && skip {
            return;
        }
        *logic += &format!("@{head}\n");
        let json = lines.iter().all(|l| l.starts_with('{'));
        for l in lines {
            twice(logic, &(l + "\n"), r, wild && json);
        }
        logic.push('\n');
        *logic += if extra_blank && r.chance(1, 2) { "\n" } else { "" };
    };
    for s in &p.screens {
        let j = java_name(&s.name);
        sect(&mut logic, format!("{j}.java_var"), s.vars.iter().map(|v| format!("{}:{}", v.1, v.0)).collect(), r, skip_empty);
    }
    for s in &p.screens {
        let j = java_name(&s.name);
        sect(&mut logic, format!("{j}.java_list"), s.lists.iter().map(|v| format!("{}:{}", v.1, v.0)).collect(), r, skip_empty);
    }
    for s in &p.screens {
        let j = java_name(&s.name);
        let v = s
            .comps
            .iter()
            .map(|c| {
                let (p1, p2, p3) = (if has_param(c.1) { c.2.clone() } else { junk(r) }, junk(r), junk(r));
                line(&json!({"componentId": c.0, "param1": p1, "param2": p2, "param3": p3, "type": c.1}), r, sh)
            })
            .collect();
        sect(&mut logic, format!("{j}.java_components"), v, r, skip_empty);
    }
    for s in &p.screens {
        let j = java_name(&s.name);
        let mut v: Vec<String> = s
            .events
            .iter()
            .map(|e| {
                let (t, tt) = match &e.kind {
                    Kind::View => (1, find_type(s, &e.target)),
                    Kind::Comp(t) => (2, *t),
                    Kind::Act => (3, 0),
                };
                line(&json!({"eventName": e.name, "eventType": t, "targetId": e.target, "targetType": tt}), r, sh)
            })
            .collect();
        // some programs list it like any other event
        if s.on_create.is_some() && r.chance(1, 8) {
            let at = r.below(v.len() + 1);
            v.insert(at, line(&json!({"eventName": "onCreate", "eventType": 3, "targetId": "onCreate", "targetType": 0}), r, sh));
        }
        if wild && r.chance(1, 4) {
            v.push(json!({"eventName": "e", "eventType": r.range(4, 5), "targetId": text(r), "targetType": r.below(256)}).to_string());
        }
        sect(&mut logic, format!("{j}.java_events"), v, r, skip_empty);
    }
    for s in &p.screens {
        let j = java_name(&s.name);
        sect(&mut logic, format!("{j}.java_func"), s.mbs.iter().map(|b| format!("{}:{}", b.id, b.spec)).collect(), r, skip_empty);
    }
    for s in &p.screens {
        let j = java_name(&s.name);
        let mut conts: Vec<(String, &[Blk])> = vec![];
        if let Some(c) = &s.on_create {
            conts.push(("onCreate_initializeLogic".into(), c));
        }
        conts.extend(s.events.iter().map(|e| (e.container(), e.code.as_slice())));
        conts.extend(s.mbs.iter().map(|b| (format!("{}_moreBlock", b.id), b.code.as_slice())));
        let orphan = gen_code(r, 3);
        if wild && r.chance(1, 3) {
            conts.push((format!("{}_orphan", name(r)), &orphan));
        }
        if r.chance(1, 3) {
            r.shuffle(&mut conts);
        }
        for (n, code) in conts {
            let skip = skip_empty && !n.starts_with("onCreate_");
            let mut js = blocks_json(code, r);
            if wild && r.chance(1, 4) {
                // nothing leads to these
                for i in 0..r.range(1, 2) {
                    js.push(json!({"color": -1, "id": (4_000_000 + i).to_string(), "nextBlock": -1, "opCode": "lost", "parameters": [text(r), "@77"], "spec": "lost %q %s",
                        "subStack1": 9, "subStack2": -1, "type": "a", "typeName": text(r)}));
                }
            }
            let v = js.iter().map(|b| line(b, r, sh)).collect();
            sect(&mut logic, format!("{j}.java_{n}"), v, r, skip);
        }
    }
    if wild && r.chance(1, 3) {
        // of a screen that does not exist (any more)
        let js = blocks_json(&gen_code(r, 4), r);
        sect(&mut logic, "GhostActivity.java_var".into(), vec![format!("1:{}", name(r)), "3:m".into()], r, false);
        sect(&mut logic, format!("GhostActivity.java_{}_onClick", name(r)), js.iter().map(|b| line(b, r, sh)).collect(), r, false);
    }
    if r.chance(1, 2) {
        logic = logic.trim_end().to_string();
    }
    if r.chance(1, 2) {
        view = view.trim_end().to_string();
    }
    [project, end(file), end(library), end(resource), view, logic]
}

fn find_type(s: &Scr, id: &str) -> u8 {
    fn go(v: &[Vw], id: &str) -> Option<u8> {
        v.iter().find_map(|x| if x.id == id { Some(x.typ) } else { go(&x.children, id) })
    }
    s.fab.iter().find(|f| f.id == id).map(|f| f.typ).or_else(|| go(&s.views, id)).unwrap_or(0)
}

// ------------------------------------------------------------------------------------------------

/// a data file as headers with the lines below them
pub fn sections(t: &str) -> Result<Vec<(String, Vec<String>)>, String> {
    let mut out: Vec<(String, Vec<String>)> = vec![];
    let mut open = false;
    for l in t.split('\n') {
        if l.is_empty() {
            open = false;
        } else if let Some(h) = l.strip_prefix('@') {
            out.push((h.to_string(), vec![]));
            open = true;
        } else if open {
            out.last_mut().unwrap().1.push(l.to_string());
        } else {
            return Err(format!("line `{l}` belongs to no section"));
        }
    }
    Ok(out)
}

fn js(l: &str) -> Result<Value, String> {
    serde_json::from_str(l).map_err(|e| format!("`{l}` is not JSON: {e}"))
}

fn st(v: &Value, k: &str) -> Result<String, String> {
    v[k].as_str().map(|s| s.to_string()).ok_or_else(|| format!("{k} of {v} is not a text"))
}

fn int(v: &Value, k: &str) -> Result<i64, String> {
    let n = &v[k];
    n.as_i64().or_else(|| n.as_f64().filter(|f| f.fract() == 0.0).map(|f| f as i64)).ok_or_else(|| format!("{k} of {v} is not a number"))
}

/// what is wrong with saved data, with the part it concerns
pub type Issues = Vec<(Focus, String)>;

fn unflatten(lines: &[String], issues: &mut Issues) -> Result<Vec<Vw>, String> {
    let mut nodes: Vec<(Vw, Option<usize>)> = vec![];
    let mut at: BTreeMap<String, usize> = BTreeMap::new();
    for l in lines {
        let v = js(l)?;
        let (vw, parent, pt) = one_view(&v)?;
        let parent = parent.ok_or_else(|| format!("view {} has no parent", vw.id))?;
        let p = if parent == "root" {
            if pt != 0 {
                issues.push((Focus::Views, format!("view {} at the top has parentType {pt}", vw.id)));
            }
            None
        } else {
            let i = *at.get(&parent).ok_or_else(|| format!("view {} comes before its parent {parent}, or there is no such view", vw.id))?;
            let t = nodes[i].0.typ;
            if pt != t as i64 {
                issues.push((Focus::Views, format!("view {} has parentType {pt}, its parent {parent} is of type {t}", vw.id)));
            }
            Some(i)
        };
        if at.insert(vw.id.clone(), nodes.len()).is_some() {
            return Err(format!("two views are called {}", vw.id));
        }
        nodes.push((vw, p));
    }
    let mut kids: Vec<Vec<Vw>> = vec![vec![]; nodes.len() + 1];
    for (i, (mut v, p)) in nodes.into_iter().enumerate().rev() {
        v.children = std::mem::take(&mut kids[i + 1]);
        v.children.reverse();
        kids[p.map_or(0, |p| p + 1)].push(v);
    }
    let mut top = std::mem::take(&mut kids[0]);
    top.reverse();
    Ok(top)
}

fn one_view(v: &Value) -> Result<(Vw, Option<String>, i64), String> {
    let mut a: Map<String, Value> = v.as_object().ok_or("view is not an object")?.clone();
    let id = st(v, "id")?;
    let typ = int(v, "type")? as u8;
    let pt = int(v, "parentType")?;
    let parent = a.get("parent").and_then(|p| p.as_str()).map(|s| s.to_string());
    for k in ["id", "type", "parent", "parentType"] {
        a.remove(k);
    }
    Ok((Vw { id, typ, attrs: a, children: vec![] }, parent, pt))
}

fn read_blocks(lines: &[String]) -> Result<Vec<Blk>, String> {
    let mut map: BTreeMap<i64, Value> = BTreeMap::new();
    let mut first = None;
    for l in lines {
        let v = js(l)?;
        let id: i64 = st(&v, "id")?.parse().map_err(|_| format!("block id of {l}"))?;
        if first.is_none() {
            first = Some(id);
        }
        if map.insert(id, v).is_some() {
            return Err(format!("two blocks have the id {id}"));
        }
    }
    let n = map.len();
    let mut taken = 0;
    fn chain(mut id: i64, map: &mut BTreeMap<i64, Value>, taken: &mut usize) -> Result<Vec<Blk>, String> {
        let mut out = vec![];
        while id >= 0 {
            let (b, next) = one(id, map, taken)?;
            out.push(b);
            id = next;
        }
        Ok(out)
    }
    fn one(id: i64, map: &mut BTreeMap<i64, Value>, taken: &mut usize) -> Result<(Blk, i64), String> {
        let v = map.remove(&id).ok_or_else(|| format!("a link leads to block {id}, which does not exist or is used twice"))?;
        *taken += 1;
        let spec = st(&v, "spec")?;
        let ps = v["parameters"].as_array().ok_or("parameters")?;
        let mut args = vec![];
        for p in ps {
            let s = p.as_str().ok_or("parameter")?;
            args.push(match s.strip_prefix('@').and_then(|i| i.parse::<i64>().ok()) {
                Some(i) => {
                    let (b, next) = one(i, map, taken)?;
                    if next >= 0 {
                        return Err(format!("block {i} is a parameter and has a next block"));
                    }
                    Arg::Blk(Box::new(b))
                }
                None => Arg::Lit(s.to_string()),
            });
        }
        if args.len() != params(&spec).len() {
            return Err(format!("block {id} has {} parameters for `{spec}`", args.len()));
        }
        let s1 = chain(int(&v, "subStack1")?, map, taken)?;
        let s2 = chain(int(&v, "subStack2")?, map, taken)?;
        Ok((
            Blk { op: st(&v, "opCode")?, color: int(&v, "color")? as i32, spec, typ: st(&v, "type")?, tn: st(&v, "typeName")?, args, s1, s2 },
            int(&v, "nextBlock")?,
        ))
    }
    let out = chain(first.unwrap_or(-1), &mut map, &mut taken)?;
    if taken != n {
        return Err(format!("nothing leads to block {}", map.keys().next().unwrap()));
    }
    Ok(out)
}

/// reads the data files the way Sketchware would
pub fn read(t: &Texts) -> (Option<Proj>, Issues) {
    let mut issues: Issues = vec![];
    let p = match read_settings(t, &mut issues) {
        Ok(p) => p,
        Err((f, e)) => {
            issues.push((f, e));
            return (None, issues);
        }
    };
    (Some(p), issues)
}

fn read_settings(t: &Texts, issues: &mut Issues) -> Result<Proj, (Focus, String)> {
    // without these there is nothing to compare with
    let top = |e: String| (Focus::All, e);
    let v = js(&t[0]).map_err(|e| top(format!("project: {e}")))?;
    let mut p = Proj {
        meta: Meta { id: 0, name: "".into(), ws: "".into(), pkg: "".into(), ver_name: "".into(), ver_code: 0, date: [0; 6], sw: 0 },
        colors: [0; 5],
        icon: false,
        screens: vec![],
        customs: vec![],
        libs: Libs::default(),
        res: [vec![], vec![], vec![]],
    };
    let m = || -> Result<(Meta, [i32; 5], bool), String> {
        let d = st(&v, "my_sc_reg_dt")?;
        if d.len() != 14 || !d.bytes().all(|b| b.is_ascii_digit()) {
            return Err(format!("date `{d}`"));
        }
        let n = |a: usize, b: usize| d[a..b].parse::<u32>().unwrap();
        let mut c = [0i32; 5];
        for (i, k) in ["color_primary", "color_primary_dark", "color_accent", "color_control_normal", "color_control_highlight"].iter().enumerate() {
            c[i] = int(&v, k)? as i32;
        }
        Ok((
            Meta {
                id: st(&v, "sc_id")?.parse().map_err(|_| "sc_id")?,
                name: st(&v, "my_app_name")?,
                ws: st(&v, "my_ws_name")?,
                pkg: st(&v, "my_sc_pkg_name")?,
                ver_name: st(&v, "sc_ver_name")?,
                ver_code: st(&v, "sc_ver_code")?.parse().map_err(|_| "sc_ver_code")?,
                date: [n(0, 4), n(4, 6), n(6, 8), n(8, 10), n(10, 12), n(12, 14)],
                sw: int(&v, "sketchware_ver")? as u8,
            },
            c,
            v["custom_icon"].as_bool().ok_or("custom_icon")?,
        ))
    }();
    match m {
        Ok((m, c, i)) => {
            p.meta = m;
            p.colors = c;
            p.icon = i;
        }
        Err(e) => issues.push((Focus::Settings, format!("project: {e}"))),
    }

    for (h, lines) in sections(&t[1]).map_err(|e| top(format!("file: {e}")))? {
        for l in &lines {
            let v = js(l).map_err(|e| top(format!("file: {e}")))?;
            let name = st(&v, "fileName").map_err(top)?;
            let get = |k: &str| int(&v, k).map_err(top);
            if h == "activity" {
                if get("fileType")? != 0 {
                    issues.push((Focus::Settings, format!("file: {name} is an activity of type {}", v["fileType"])));
                }
                p.screens.push(Scr {
                    name,
                    opts: get("options")? as u8,
                    orientation: get("orientation")? as u8,
                    theme: get("theme")? as i8,
                    keyboard: get("keyboardSetting")? as u8,
                    views: vec![],
                    fab: None,
                    vars: vec![],
                    lists: vec![],
                    comps: vec![],
                    events: vec![],
                    on_create: None,
                    mbs: vec![],
                });
            } else if h == "customview" {
                let ft = if name.starts_with("_drawer_") { 2 } else { 1 };
                if get("fileType")? != ft || get("options")? != 0 || get("keyboardSetting")? != 0 || get("orientation")? != 2 || get("theme")? != -1 {
                    issues.push((Focus::Settings, format!("file: entry of custom view {name} is {v}")));
                }
                p.customs.push(Cst { name, views: vec![] });
            } else {
                issues.push((Focus::Settings, format!("file: unknown section {h}")));
            }
        }
    }

    if let Err(e) = read_lib(&t[2], &mut p) {
        issues.push((Focus::Settings, format!("library: {e}")));
    }
    let mut res = || -> Result<(), String> {
        for (h, lines) in sections(&t[3])? {
            let k = ["images", "sounds", "fonts"].iter().position(|x| *x == h).ok_or_else(|| format!("unknown section {h}"))?;
            for l in &lines {
                let v = js(l)?;
                if int(&v, "resType")? != 1 {
                    return Err(format!("resType of {l}"));
                }
                p.res[k].push((st(&v, "resName")?, st(&v, "resFullName")?));
            }
        }
        Ok(())
    };
    if let Err(e) = res() {
        issues.push((Focus::Settings, format!("resource: {e}")));
    }

    // layouts
    match sections(&t[4]) {
        Err(e) => issues.push((Focus::Views, format!("view: {e}"))),
        Ok(s) => {
            let mut seen = BTreeSet::new();
            for (h, lines) in s {
                if !seen.insert(h.clone()) {
                    issues.push((Focus::Views, format!("view: section {h} occurs twice")));
                }
                let r = if let Some(n) = h.strip_suffix(".xml_fab") {
                    (|| {
                        if lines.len() != 1 {
                            return Err(format!("{} lines", lines.len()));
                        }
                        let (v, parent, pt) = one_view(&js(&lines[0])?)?;
                        if parent.is_some() || pt != -1 {
                            issues.push((Focus::Views, format!("view: {h} has parent {parent:?} of type {pt}")));
                        }
                        p.screens.iter_mut().find(|s| s.name == n).ok_or("belongs to no screen")?.fab = Some(v);
                        Ok(())
                    })()
                } else if let Some(n) = h.strip_suffix(".xml") {
                    unflatten(&lines, issues).and_then(|v| {
                        if let Some(s) = p.screens.iter_mut().find(|s| s.name == n) {
                            s.views = v;
                            Ok(())
                        } else if let Some(c) = p.customs.iter_mut().find(|c| c.name == n) {
                            c.views = v;
                            Ok(())
                        } else {
                            Err("belongs to no screen or custom view".into())
                        }
                    })
                } else {
                    Err("unknown kind".into())
                };
                if let Err(e) = r {
                    issues.push((Focus::Views, format!("view: section {h}: {e}")));
                }
            }
            for c in &p.customs {
                if !seen.contains(&format!("{}.xml", c.name)) {
                    issues.push((Focus::Views, format!("view: no layout for custom view {}", c.name)));
                }
            }
        }
    }

    // logic
    match sections(&t[5]) {
        Err(e) => {
            issues.push((Focus::Decl, format!("logic: {e}")));
            issues.push((Focus::Code, format!("logic: {e}")));
        }
        Ok(s) => {
            let mut code: BTreeMap<(String, String), Vec<String>> = BTreeMap::new();
            for (h, lines) in s {
                let Some((j, kind)) = h.split_once(".java_") else {
                    issues.push((Focus::Decl, format!("logic: header {h}")));
                    issues.push((Focus::Code, format!("logic: header {h}")));
                    continue;
                };
                let Some(scr) = p.screens.iter_mut().find(|s| java_name(&s.name) == j) else {
                    issues.push((Focus::Decl, format!("logic: {h} belongs to no screen")));
                    issues.push((Focus::Code, format!("logic: {h} belongs to no screen")));
                    continue;
                };
                let pool = |lines: &[String]| -> Result<Vec<(String, u8)>, String> {
                    lines
                        .iter()
                        .map(|l| {
                            let (t, n) = l.split_once(':').ok_or_else(|| format!("line `{l}`"))?;
                            Ok((n.to_string(), t.parse().map_err(|_| format!("type in `{l}`"))?))
                        })
                        .collect()
                };
                let r: Result<(), String> = (|| {
                    match kind {
                        "var" => scr.vars.extend(pool(&lines)?),
                        "list" => scr.lists.extend(pool(&lines)?),
                        "components" => {
                            for l in &lines {
                                let v = js(l)?;
                                let t = int(&v, "type")? as u8;
                                scr.comps.push((st(&v, "componentId")?, t, if has_param(t) { st(&v, "param1")? } else { "".into() }));
                            }
                        }
                        "events" => {
                            for l in &lines {
                                let v = js(l)?;
                                let name = st(&v, "eventName")?;
                                let target = st(&v, "targetId")?;
                                let tt = int(&v, "targetType")?;
                                let kind = match int(&v, "eventType")? {
                                    1 => {
                                        let ids = view_ids(scr);
                                        if ids.contains(&target) && tt != find_type(scr, &target) as i64 {
                                            return Err(format!("{l} has targetType {tt}, the view is of type {}", find_type(scr, &target)));
                                        }
                                        Kind::View
                                    }
                                    2 => Kind::Comp(tt as u8),
                                    3 if name == "onCreate" && target == "onCreate" => continue,
                                    3 => {
                                        if target != name {
                                            return Err(format!("{l} has targetId {target}"));
                                        }
                                        Kind::Act
                                    }
                                    x => return Err(format!("eventType {x}")),
                                };
                                scr.events.push(Ev { name, kind, target, code: vec![] });
                            }
                        }
                        "func" => {
                            for l in &lines {
                                let (i, s) = l.split_once(':').ok_or_else(|| format!("line `{l}`"))?;
                                scr.mbs.push(Mb { id: i.into(), spec: s.into(), code: vec![] });
                            }
                        }
                        _ => {
                            if code.insert((j.to_string(), kind.to_string()), lines.clone()).is_some() {
                                issues.push((Focus::Code, format!("logic: section {h} occurs twice")));
                            }
                        }
                    }
                    Ok(())
                })();
                if let Err(e) = r {
                    issues.push((Focus::Decl, format!("logic: section {h}: {e}")));
                }
            }
            let mut decode = |j: &str, c: String| -> Option<Vec<Blk>> {
                let l = code.remove(&(j.to_string(), c.clone()))?;
                match read_blocks(&l) {
                    Ok(b) => Some(b),
                    Err(e) => {
                        issues.push((Focus::Code, format!("logic: code {j}.java_{c}: {e}")));
                        None
                    }
                }
            };
            for s in p.screens.iter_mut() {
                let j = java_name(&s.name);
                s.on_create = decode(&j, "onCreate_initializeLogic".into());
                for e in s.events.iter_mut() {
                    e.code = decode(&j, e.container()).unwrap_or_default();
                }
                for b in s.mbs.iter_mut() {
                    b.code = decode(&j, format!("{}_moreBlock", b.id)).unwrap_or_default();
                }
            }
            for ((j, c), _) in code {
                issues.push((Focus::Code, format!("logic: code {j}.java_{c} belongs to nothing")));
            }
        }
    }
    Ok(p)
}

fn read_lib(t: &str, p: &mut Proj) -> Result<(), String> {
    let s = sections(t)?;
    for (i, h) in ["firebaseDB", "compat", "admob", "googleMap"].iter().enumerate() {
        let (_, lines) = s.iter().find(|x| x.0 == *h).ok_or_else(|| format!("no section {h}"))?;
        if lines.len() != 1 {
            return Err(format!("{} lines in {h}", lines.len()));
        }
        let v = js(&lines[0])?;
        if int(&v, "libType")? != i as i64 {
            return Err(format!("libType of {h} is {}", v["libType"]));
        }
        let on = match v["useYn"].as_str() {
            Some("Y") => true,
            Some("N") => false,
            _ => return Err(format!("useYn of {h} is {}", v["useYn"])),
        };
        match i {
            0 if on => p.libs.firebase = Some([st(&v, "data")?, st(&v, "reserved1")?, st(&v, "reserved2")?, st(&v, "reserved3")?]),
            1 => p.libs.compat = on,
            2 if on => {
                let u = v["adUnits"].as_array().ok_or("adUnits")?.iter().map(|u| Ok((st(u, "id")?, st(u, "name")?))).collect::<Result<Vec<_>, String>>()?;
                let d = v["testDevices"].as_array().ok_or("testDevices")?.iter().map(|d| d.as_str().map(|s| s.to_string()).ok_or_else(|| "testDevices".to_string())).collect::<Result<Vec<_>, String>>()?;
                p.libs.admob = Some((u, d));
            }
            3 if on => p.libs.map = Some(st(&v, "data")?),
            _ => {}
        }
    }
    Ok(())
}
