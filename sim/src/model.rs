//! The reference model of a project: what a user believes is in it. Independent of swrs.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Proj {
    pub meta: Meta,
    pub colors: [i32; 5],
    pub icon: bool,
    pub screens: Vec<Scr>,
    pub customs: Vec<Cst>,
    pub libs: Libs,
    /// images, sounds, fonts: (name, file name)
    pub res: [Vec<(String, String)>; 3],
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Meta {
    pub id: u16,
    pub name: String,
    pub ws: String,
    pub pkg: String,
    pub ver_name: String,
    pub ver_code: u16,
    /// year, month, day, hour, minute, second
    pub date: [u32; 6],
    pub sw: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scr {
    pub name: String,
    pub opts: u8,
    pub orientation: u8,
    pub theme: i8,
    pub keyboard: u8,
    pub views: Vec<Vw>,
    pub fab: Option<Vw>,
    /// (name, type)
    pub vars: Vec<(String, u8)>,
    pub lists: Vec<(String, u8)>,
    /// (id, type, parameter 1)
    pub comps: Vec<(String, u8, String)>,
    pub events: Vec<Ev>,
    pub on_create: Option<Vec<Blk>>,
    pub mbs: Vec<Mb>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cst {
    pub name: String,
    pub views: Vec<Vw>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Vw {
    pub id: String,
    pub typ: u8,
    /// every attribute in the data file except id, parent, parentType and type
    pub attrs: Map<String, Value>,
    pub children: Vec<Vw>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    View,
    Comp(u8),
    Act,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ev {
    pub name: String,
    pub kind: Kind,
    /// of the view or component
    pub target: String,
    pub code: Vec<Blk>,
}

impl Ev {
    pub fn container(&self) -> String {
        match self.kind {
            Kind::Act => format!("{}_{}", self.name, self.name),
            _ => format!("{}_{}", self.target, self.name),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Mb {
    pub id: String,
    pub spec: String,
    pub code: Vec<Blk>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Blk {
    pub op: String,
    pub color: i32,
    pub spec: String,
    pub typ: String,
    pub tn: String,
    pub args: Vec<Arg>,
    pub s1: Vec<Blk>,
    pub s2: Vec<Blk>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Arg {
    Lit(String),
    Blk(Box<Blk>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Libs {
    pub compat: bool,
    pub firebase: Option<[String; 4]>,
    /// (units (id, name), test devices)
    pub admob: Option<(Vec<(String, String)>, Vec<String>)>,
    pub map: Option<String>,
}

pub fn java_name(layout: &str) -> String {
    let mut s = String::new();
    for part in layout.split('_') {
        let mut c = part.chars();
        if let Some(f) = c.next() {
            s.push(f.to_ascii_uppercase());
            s.extend(c);
        }
    }
    s + "Activity"
}

/// the parameters of a block text: 's', 'd', 'b' or 'm' each
pub fn params(spec: &str) -> Vec<char> {
    spec.split(' ').filter(|t| t.starts_with('%') && *t != "%").map(|t| t.chars().nth(1).unwrap()).collect()
}

/// attributes that the high-level model shows as fields of a view of this type
pub fn typed(typ: u8) -> &'static [&'static str] {
    match typ {
        0 => &["layout.orientation", "layout.gravity"],
        2 | 12 => &["layout.gravity"],
        3 => &["text.text", "text.textColor", "text.textSize", "text.textType"],
        4 => &["text.text", "text.textColor", "text.textSize", "text.textType", "text.singleLine", "text.textFont", "text.line"],
        5 => &[
            "text.text", "text.textColor", "text.textSize", "text.textType", "text.singleLine", "text.textFont", "text.line", "text.hint", "text.hintColor",
            "text.imeOption", "text.inputType",
        ],
        6 => &["image.resName", "image.scaleType"],
        8 => &["max", "progress", "indeterminate", "progressStyle"],
        9 => &["dividerHeight", "customView"],
        10 => &["spinnerMode"],
        11 | 13 => &["checked", "text.text", "text.textColor", "text.textSize", "text.textType", "text.textFont"],
        14 => &["max", "progress"],
        15 => &["firstDayOfWeek"],
        16 => &["image.resName"],
        17 => &["adSize"],
        _ => &[],
    }
}

pub const KNOWN_TYPES: [u8; 18] = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18];

pub fn get_path<'a>(m: &'a Map<String, Value>, path: &str) -> Option<&'a Value> {
    match path.split_once('.') {
        None => m.get(path),
        Some((a, b)) => m.get(a)?.get(b),
    }
}

pub fn set_path(m: &mut Map<String, Value>, path: &str, v: Value) {
    match path.split_once('.') {
        None => {
            m.insert(path.into(), v);
        }
        Some((a, b)) => {
            if let Some(o) = m.get_mut(a).and_then(|o| o.as_object_mut()) {
                o.insert(b.into(), v);
            }
        }
    }
}

pub fn del_path(m: &mut Map<String, Value>, path: &str) {
    match path.split_once('.') {
        None => {
            m.remove(path);
        }
        Some((a, b)) => {
            if let Some(o) = m.get_mut(a).and_then(|o| o.as_object_mut()) {
                o.remove(b);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// canonical form

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Focus {
    Code,
    Views,
    Settings,
    Decl,
    All,
}

pub fn canon_num(v: &Value) -> Value {
    match v {
        Value::Number(n) => {
            if let Some(i) = n.as_i64() {
                json!(i as f64)
            } else {
                // attributes with a fraction have single precision
                json!(n.as_f64().unwrap_or(f64::NAN) as f32 as f64)
            }
        }
        Value::Array(a) => a.iter().map(canon_num).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| (k.clone(), canon_num(v))).collect::<Map<_, _>>().into(),
        v => v.clone(),
    }
}

pub fn canon_view(v: &Vw) -> Value {
    let mut a = v.attrs.clone();
    // colours are 32 bit patterns
    for p in ["layout.backgroundColor", "text.textColor", "text.hintColor"] {
        if let Some(n) = get_path(&a, p).and_then(|n| n.as_f64()) {
            set_path(&mut a, p, json!(n as i64 as u32));
        }
    }
    let mut o = Map::new();
    o.insert("id".into(), json!(v.id));
    o.insert("type".into(), json!(v.typ));
    o.insert("attrs".into(), canon_num(&Value::Object(a)));
    o.insert("children".into(), v.children.iter().map(canon_view).collect());
    Value::Object(o)
}

pub fn canon_code(c: &[Blk]) -> Value {
    c.iter().map(canon_blk).collect()
}

fn canon_blk(b: &Blk) -> Value {
    let ps = params(&b.spec);
    let args: Vec<Value> = b
        .args
        .iter()
        .enumerate()
        .map(|(i, a)| {
            let p = ps.get(i).copied().unwrap_or('?');
            match a {
                Arg::Blk(x) if p == 'b' && (x.op == "true" || x.op == "false") => json!(x.op == "true"),
                Arg::Blk(x) => Map::from_iter([("block".to_string(), canon_blk(x))]).into(),
                Arg::Lit(s) if p == 'b' && s == "true" => json!(true),
                Arg::Lit(s) if p == 'b' && s == "false" => json!(false),
                Arg::Lit(s) if p == 'd' && !s.is_empty() => match s.parse::<f64>() {
                    Ok(f) => json!({ "number": f.to_bits().to_string(), "is": f }),
                    Err(_) => json!({ "bad number": s }),
                },
                Arg::Lit(s) => json!(s),
            }
        })
        .collect();
    let tn = if ["v", "p", "l"].contains(&b.typ.as_str()) { b.tn.as_str() } else { "" };
    let mut o = Map::new();
    o.insert("op".into(), json!(b.op));
    o.insert("color".into(), json!(b.color as u32));
    o.insert("spec".into(), json!(b.spec));
    o.insert("type".into(), json!(b.typ));
    o.insert("typeName".into(), json!(tn));
    o.insert("args".into(), Value::Array(args));
    o.insert("sub1".into(), canon_code(&b.s1));
    o.insert("sub2".into(), canon_code(&b.s2));
    Value::Object(o)
}

fn view_type(s: &Scr, id: &str) -> Option<u8> {
    fn go(v: &[Vw], id: &str) -> Option<u8> {
        v.iter().find_map(|x| if x.id == id { Some(x.typ) } else { go(&x.children, id) })
    }
    s.fab.iter().find(|f| f.id == id).map(|f| f.typ).or_else(|| go(&s.views, id))
}

/// `tt`: the target types found in the data file, by (screen, event)
pub fn canon(p: &Proj, f: Focus) -> Value {
    let mut o = Map::new();
    let all = f == Focus::All;
    let names: Vec<&str> = p.screens.iter().map(|s| s.name.as_str()).collect();
    o.insert("screens".into(), json!(names));
    if all || f == Focus::Code {
        let mut m = Map::new();
        for s in &p.screens {
            let mut c = Map::new();
            if let Some(code) = &s.on_create {
                c.insert("onCreate".into(), canon_code(code));
            }
            for e in &s.events {
                c.insert(format!("event {}", e.container()), canon_code(&e.code));
            }
            for b in &s.mbs {
                c.insert(format!("moreblock {}", b.id), canon_code(&b.code));
            }
            m.insert(s.name.clone(), c.into());
        }
        o.insert("code".into(), m.into());
    }
    if all || f == Focus::Views {
        let mut m = Map::new();
        for s in &p.screens {
            m.insert(
                s.name.clone(),
                json!({"views": s.views.iter().map(canon_view).collect::<Vec<_>>(), "fab": s.fab.as_ref().map(canon_view)}),
            );
        }
        for c in &p.customs {
            m.insert(format!("custom {}", c.name), json!({"views": c.views.iter().map(canon_view).collect::<Vec<_>>()}));
        }
        o.insert("layouts".into(), m.into());
    }
    if all || f == Focus::Settings {
        o.insert("meta".into(), serde_json::to_value(&p.meta).unwrap());
        o.insert("colors".into(), json!(p.colors.map(|c| c as u32)));
        o.insert("icon".into(), json!(p.icon));
        o.insert("libs".into(), serde_json::to_value(&p.libs).unwrap());
        o.insert("res".into(), serde_json::to_value(&p.res).unwrap());
        o.insert("customs".into(), json!(p.customs.iter().map(|c| &c.name).collect::<Vec<_>>()));
        let opts: Vec<Value> = p
            .screens
            .iter()
            .map(|s| json!({"name": s.name, "opts": s.opts, "orientation": s.orientation, "theme": s.theme, "keyboard": s.keyboard}))
            .collect();
        o.insert("options".into(), json!(opts));
    }
    if all || f == Focus::Decl {
        let mut m = Map::new();
        for s in &p.screens {
            let ev: Vec<Value> = s
                .events
                .iter()
                .map(|e| match &e.kind {
                    Kind::View => json!({"name": e.name, "view": e.target, "targetType": view_type(s, &e.target)}),
                    Kind::Comp(t) => json!({"name": e.name, "component": e.target, "targetType": t}),
                    Kind::Act => json!({"name": e.name, "activity": true}),
                })
                .collect();
            let mbs: Vec<Value> = s.mbs.iter().map(|b| json!({"id": b.id, "spec": b.spec})).collect();
            m.insert(
                s.name.clone(),
                json!({"vars": s.vars, "lists": s.lists, "components": s.comps, "events": ev, "onCreate": s.on_create.is_some(), "moreblocks": mbs}),
            );
        }
        o.insert("declarations".into(), m.into());
    }
    o.into()
}

/// the first place where two canonical forms differ
pub fn diff(want: &Value, got: &Value) -> Option<String> {
    fn short(v: &Value) -> String {
        let s = v.to_string();
        if s.chars().count() > 300 {
            s.chars().take(300).collect::<String>() + "…"
        } else {
            s
        }
    }
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, x) in a {
                match b.get(k) {
                    None => return Some(format!(".{k} is missing (expected {})", short(x))),
                    Some(y) => {
                        if let Some(d) = diff(x, y) {
                            return Some(format!(".{k}{d}"));
                        }
                    }
                }
            }
            b.keys().find(|k| !a.contains_key(*k)).map(|k| format!(".{k} was not there before: {}", short(&b[k])))
        }
        (Value::Array(a), Value::Array(b)) => {
            for i in 0..a.len().min(b.len()) {
                if let Some(d) = diff(&a[i], &b[i]) {
                    return Some(format!("[{i}]{d}"));
                }
            }
            if a.len() != b.len() {
                return Some(format!(" has {} entries instead of {}: {} instead of {}", b.len(), a.len(), short(got), short(want)));
            }
            None
        }
        _ if want == got => None,
        _ => Some(format!(" is {} instead of {}", short(got), short(want))),
    }
}

// ------------------------------------------------------------------------------------------------
// well-formedness (what a scenario may contain)

fn ident(s: &str) -> bool {
    !s.is_empty() && s.len() < 400 && s.chars().all(|c| c.is_alphanumeric() || c == '_')
}

fn plain_line(s: &str) -> bool {
    !s.chars().any(|c| c.is_control()) && s.trim() == s
}

fn ok_spec(s: &str) -> bool {
    plain_line(s)
        && s.split(' ').all(|t| {
            if !t.starts_with('%') || t == "%" {
                return true;
            }
            let c: Vec<char> = t.chars().collect();
            match c[1] {
                's' | 'd' | 'b' => c.len() == 2 || (c[2] == '.' && c.len() > 3),
                'm' => c.len() > 3 && c[2] == '.',
                _ => false,
            }
        })
}

fn ok_blk(b: &Blk, top: bool) -> bool {
    let ps = params(&b.spec);
    ok_spec_or_text(&b.spec)
        && ps.len() == b.args.len()
        && match b.typ.as_str() {
            " " | "c" | "e" | "f" => top,
            "b" | "s" | "d" | "v" | "p" => !top || true,
            "l" => b.tn == "List String" || b.tn == "List Number",
            _ => false,
        }
        && (b.typ == "c" || b.typ == "e" || (b.s1.is_empty()))
        && (b.typ == "e" || b.s2.is_empty())
        && b.args.iter().zip(&ps).all(|(a, p)| match a {
            Arg::Blk(x) => ok_blk(x, false),
            Arg::Lit(s) => match p {
                'd' => s.is_empty() || s.parse::<f64>().map_or(false, |f| f.is_finite()),
                'b' => ["", "true", "false"].contains(&s.as_str()),
                _ => !s.starts_with('@'),
            },
        })
        && b.s1.iter().all(|x| ok_blk(x, true))
        && b.s2.iter().all(|x| ok_blk(x, true))
}

// the text of a block may be anything (it is JSON), but its parameters have to be well-formed
fn ok_spec_or_text(s: &str) -> bool {
    s.split(' ').all(|t| {
        if !t.starts_with('%') || t == "%" {
            return true;
        }
        let c: Vec<char> = t.chars().collect();
        match c[1] {
            's' | 'd' | 'b' => c.len() == 2 || (c[2] == '.' && c.len() > 3),
            'm' => c.len() > 3 && c[2] == '.',
            _ => false,
        }
    })
}

pub fn ok_views(v: &[Vw], seen: &mut BTreeSet<String>) -> bool {
    let proto = default_attrs();
    v.iter().all(|x| {
        !x.id.is_empty()
            && x.id != "root"
            && seen.insert(x.id.clone())
            && x.typ < 128
            && same_shape(&proto, &x.attrs)
            && ok_views(&x.children, seen)
    })
}

fn same_shape(p: &Map<String, Value>, a: &Map<String, Value>) -> bool {
    p.iter().all(|(k, v)| match (v, a.get(k)) {
        (_, None) => matches!(k.as_str(), "preId" | "preParent" | "resName"),
        (Value::Object(x), Some(Value::Object(y))) => same_shape(x, y),
        (Value::String(_), Some(Value::String(s))) => match k.as_str() {
            "indeterminate" => s == "true" || s == "false",
            "scaleType" => SCALES.contains(&s.as_str()),
            _ => true,
        },
        (Value::Number(_), Some(Value::Number(n))) => match range(k) {
            Some((lo, hi)) => n.as_i64().map_or(false, |i| i >= lo && i <= hi) && (k != "inputType" || INPUTS.contains(&n.as_i64().unwrap())),
            None => n.as_f64().map_or(false, |f| f.is_finite() && (f as f32).is_finite()),
        },
        _ => false,
    }) && a.keys().all(|k| p.contains_key(k))
}

pub fn ok(p: &Proj) -> bool {
    let m = &p.meta;
    let d = m.date;
    if d[0] > 9999 || d[1] < 1 || d[1] > 12 || d[2] < 1 || d[2] > month_days(d[0], d[1]) || d[3] > 23 || d[4] > 59 || d[5] > 59 {
        return false;
    }
    let mut names = BTreeSet::new();
    let mut javas = BTreeSet::new();
    for s in &p.screens {
        if !ident(&s.name) || s.name.starts_with("_drawer_") || java_name(&s.name) == "Activity" || !names.insert(s.name.clone()) || !javas.insert(java_name(&s.name)) {
            return false;
        }
        if s.opts > 15 || s.orientation > 2 || s.theme < -1 || s.theme > 2 || s.keyboard > 2 {
            return false;
        }
        let mut ids = BTreeSet::new();
        if !ok_views(&s.views, &mut ids) {
            return false;
        }
        if let Some(f) = &s.fab {
            if !f.children.is_empty() || !ok_views(std::slice::from_ref(f), &mut ids) {
                return false;
            }
        }
        let mut vs = BTreeSet::new();
        if !s.vars.iter().all(|v| ident(&v.0) && v.1 < 4 && vs.insert(&v.0)) {
            return false;
        }
        let mut vs = BTreeSet::new();
        if !s.lists.iter().all(|v| ident(&v.0) && v.1 < 4 && vs.insert(&v.0)) {
            return false;
        }
        let mut cs = BTreeSet::new();
        if !s.comps.iter().all(|c| ident(&c.0) && c.1 >= 1 && c.1 <= 21 && cs.insert(&c.0) && (has_param(c.1) || c.2.is_empty())) {
            return false;
        }
        let mut cont: BTreeSet<String> = ["onCreate_initializeLogic".to_string()].into();
        for e in &s.events {
            let target_ok = match &e.kind {
                Kind::View => ids.contains(&e.target),
                Kind::Comp(_) => ident(&e.target),
                Kind::Act => e.target == e.name,
            };
            if !target_ok || !ident(&e.name) || (e.kind == Kind::Act && e.name == "onCreate") || !cont.insert(e.container()) || !e.code.iter().all(|b| ok_blk(b, true)) {
                return false;
            }
        }
        for b in &s.mbs {
            if !ident(&b.id) || !ok_spec(&b.spec) || !cont.insert(format!("{}_moreBlock", b.id)) || !b.code.iter().all(|b| ok_blk(b, true)) {
                return false;
            }
        }
        if cont.iter().any(|c| c.contains(".java_") || c.contains('\n')) {
            return false;
        }
        if let Some(c) = &s.on_create {
            if !c.iter().all(|b| ok_blk(b, true)) {
                return false;
            }
        }
    }
    for c in &p.customs {
        let mut ids = BTreeSet::new();
        if !ident(&c.name) || !names.insert(c.name.clone()) || !ok_views(&c.views, &mut ids) {
            return false;
        }
    }
    let mut rn = BTreeSet::new();
    let mut rf = BTreeSet::new();
    for k in &p.res {
        for (n, f) in k {
            if n.is_empty() || f.is_empty() || f.contains('/') || !rn.insert(n) || !rf.insert(f) {
                return false;
            }
        }
    }
    true
}

pub fn has_param(typ: u8) -> bool {
    [2, 6, 14, 16].contains(&typ)
}

// ------------------------------------------------------------------------------------------------
// generation

pub const SCALES: [&str; 7] = ["CENTER", "FIT_XY", "FIT_START", "FIT_CENTER", "FIT_END", "CENTER_CROP", "CENTER_INSIDE"];
pub const INPUTS: [i64; 6] = [8194, 4098, 12290, 129, 3, 1];

/// allowed integers of a numeric attribute; None: a fraction
fn range(k: &str) -> Option<(i64, i64)> {
    Some(match k {
        "alpha" | "scaleX" | "scaleY" | "translationX" | "translationY" => return None,
        "checked" | "clickable" | "enabled" | "spinnerMode" | "singleLine" => (0, 1),
        "choiceMode" => (0, 2),
        "firstDayOfWeek" | "gravity" | "layoutGravity" => (0, 255),
        "rotate" => (-32768, 32767),
        "orientation" => (-1, 1),
        "preParentType" => (-128, 127),
        "preIndex" => (i32::MIN as i64, i32::MAX as i64),
        "backgroundColor" | "textColor" | "hintColor" => (i32::MIN as i64, i32::MAX as i64),
        "height" | "width" => (-2, i32::MAX as i64),
        "imeOption" => (0, 6),
        "inputType" => (1, 12290),
        "textType" => (0, 3),
        _ => (0, u32::MAX as i64),
    })
}

pub fn default_attrs() -> Map<String, Value> {
    json!({
        "adSize": "", "adUnitId": "", "alpha": 1.0, "checked": 0, "choiceMode": 0, "clickable": 1, "customView": "", "dividerHeight": 1,
        "enabled": 1, "firstDayOfWeek": 1, "image": {"resName": "", "rotate": 0, "scaleType": "CENTER"}, "indeterminate": "false", "index": 0,
        "layout": {"backgroundColor": 16777215, "gravity": 0, "height": -2, "layoutGravity": 0, "marginBottom": 0, "marginLeft": 0, "marginRight": 0,
            "marginTop": 0, "orientation": 1, "paddingBottom": 8, "paddingLeft": 8, "paddingRight": 8, "paddingTop": 8, "weight": 0, "weightSum": 0, "width": -1},
        "max": 100, "preId": "", "preIndex": 0, "preParent": "", "preParentType": 0, "progress": 0, "progressStyle": "?android:progressBarStyle",
        "scaleX": 1.0, "scaleY": 1.0, "spinnerMode": 1,
        "text": {"hint": "", "hintColor": -10453621, "imeOption": 1, "inputType": 1, "line": 0, "singleLine": 0, "text": "", "textColor": -16777216,
            "textFont": "default_font", "textSize": 12, "textType": 0},
        "translationX": 0.0, "translationY": 0.0
    })
    .as_object()
    .unwrap()
    .clone()
}

/// all attribute paths
pub fn attr_paths() -> Vec<String> {
    let mut out = vec![];
    for (k, v) in default_attrs() {
        match v {
            Value::Object(o) => out.extend(o.keys().map(|x| format!("{k}.{x}"))),
            _ => out.push(k),
        }
    }
    out
}

pub fn gen_attr(r: &mut Rng, path: &str) -> Value {
    let k = path.rsplit('.').next().unwrap();
    if k == "scaleType" {
        return json!(r.pick(&SCALES));
    }
    if k == "inputType" {
        return json!(r.pick(&INPUTS));
    }
    if k == "indeterminate" {
        return json!(["true", "false"][r.below(2)]);
    }
    let d = default_attrs();
    match get_path(&d, path) {
        Some(Value::String(_)) => {
            if k == "resName" || k.starts_with("pre") || k == "customView" {
                json!(name(r))
            } else {
                json!(text(r))
            }
        }
        _ => match range(k) {
            None => json!(match r.below(12) {
                0..=7 => [0.0, 1.0, 0.5, 0.1, -3.25, 1e-3, 100.0, 0.3][r.below(8)] as f32,
                8 => r.next() as i32 as f32 / 1e5,
                9 => r.below(1 << 24) as f32 / (1 << 24) as f32,
                10 => [1e-7, 1.0 / 3.0, 0.0625, 1e9, 16_777_215.0, 0.12345, -0.004, 2.5e20][r.below(8)],
                _ => (r.next() % 4_000_000_000) as f32 * 0.1,
            } as f64),
            Some((lo, hi)) => {
                let v = match r.below(6) {
                    0 => lo,
                    1 => hi,
                    2 => r.below(300) as i64,
                    3 => r.next() as i64 % (hi - lo + 1) + if lo < 0 { 0 } else { lo },
                    _ => r.below(17) as i64 - 1,
                };
                json!(v.clamp(lo, hi))
            }
        },
    }
}

pub fn name(r: &mut Rng) -> String {
    const N: [&str; 22] = [
        "main", "a", "b", "x1", "linear1", "button1", "textview1", "item", "data", "value", "list_row", "debug_screen", "very_long_name_of_a_screen", "t", "camelCase", "n2",
        "index", "timer", "é", "view_2", "onClick", "var",
    ];
    const RARE: [&str; 16] = [
        "_private", "x_", "a__b", "Item", "ITEM", "2nd", "_", "0", "Main", "x_onClick", "a_moreBlock", "initializeLogic", "日本語", "root2", "activity", "MainActivity",
    ];
    if r.chance(1, 24) {
        // long names, multi-byte ones included
        let most = if r.chance(1, 3) { 300 } else { 70 };
        let n = r.range(20, most);
        return r.pick(&["x", "ab", "name_", "é", "aé", "日"]).chars().cycle().take(n).collect::<String>().chars().scan(0, |l, c| {
            *l += c.len_utf8();
            (*l < 390).then_some(c)
        }).collect();
    }
    if r.chance(1, 16) {
        return r.pick(&RARE).to_string();
    }
    let mut s = r.pick(&N).to_string();
    if r.chance(1, 2) {
        s.push_str(&r.below(40).to_string());
    }
    if r.chance(1, 16) {
        s = if r.chance(1, 2) { s.to_uppercase() } else { s.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect() };
    }
    s
}

/// user texts, with everything that formats tend to trip over
pub fn text(r: &mut Rng) -> String {
    const T: [&str; 50] = [
        "", "a", "Hello world", "100", "-1", "true", " leading", "trailing ", "a\nb", "a\tb", "\"quoted\"", "back\\slash", "{\"json\":1}", "@x", "a@b.c", "%s", "%d items",
        "ünïcödé", "日本語", "🦀", "a\r\nb", "\u{2028}", "/path/to", "a:b", "null", "[]", "<b>", "'", "a\u{0}b", "  ", "\n@Main.java_x\n", "\n\n", "\\n", "\\u0041", "\u{feff}", "%%", "{", "}",
        "@", "a,b;c|d", "\u{7f}\u{1b}", "FALSE", "a\u{a0}b", "\u{a0}", "\u{3000}a\u{2003}", "a\u{85}b", "a\u{200b}b\u{200b}", "e\u{301}", "\u{b}\u{c}", "a\u{1c}b\u{1f}",
    ];
    if r.big == 8 && r.chance(1, 5) {
        // one text that is larger than any other
        r.big = 0;
        let n = [65_534, 65_535, 65_536, 65_537, 70_000, 131_073, 200_000][r.below(7)];
        let u = if r.chance(1, 2) { "x" } else { *r.pick(&T[1..]) };
        let k = r.below(3);
        return "abc"[..k].chars().chain(u.chars().cycle().take(n)).collect();
    }
    if r.chance(1, 2) {
        return r.pick(&["", "a", "b", "Hello", "text", "value 1"]).to_string();
    }
    if r.chance(1, 24) {
        let n = match r.below(8) {
            0 => r.range(1000, 9000),
            1 | 2 => [63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024][r.below(11)],
            _ => r.range(30, 300),
        };
        let u = *r.pick(&T);
        let u = if u.is_empty() { "xé" } else { u };
        let k = r.below(3);
        return "abc"[..k].chars().chain(u.chars().cycle().take(n)).collect();
    }
    let mut s = r.pick(&T).to_string();
    if r.chance(1, 3) {
        s.push_str(*r.pick(&T));
    }
    s
}

fn literal(r: &mut Rng) -> String {
    let s = text(r);
    if s.starts_with('@') {
        format!("x{s}")
    } else {
        s
    }
}

pub fn gen_view(r: &mut Rng, id: String, wild: bool) -> Vw {
    let typ = if wild && r.chance(1, 12) { *r.pick(&[1, 19, 20, 31, 48, 100, 127]) } else { *r.pick(&KNOWN_TYPES) };
    let mut attrs = default_attrs();
    let paths = attr_paths();
    for _ in 0..match r.below(4) {
        0 => 0,
        1 => r.below(4),
        2 => r.below(12),
        _ => r.below(45),
    } {
        let p = r.pick(&paths).clone();
        let v = gen_attr(r, &p);
        set_path(&mut attrs, &p, v);
    }
    if r.chance(1, 2) {
        for p in typed(typ) {
            let v = gen_attr(r, p);
            set_path(&mut attrs, p, v);
        }
    }
    for p in ["preId", "preParent", "image.resName"] {
        if r.chance(1, 3) {
            del_path(&mut attrs, p);
        }
    }
    Vw { id, typ, attrs, children: vec![] }
}

fn fresh(r: &mut Rng, used: &mut BTreeSet<String>) -> String {
    loop {
        let n = name(r);
        if used.insert(n.clone()) {
            return n;
        }
        let n = format!("{n}_{}", used.len());
        if used.insert(n.clone()) {
            return n;
        }
    }
}

/// a tree of up to `n` views
pub fn gen_views(r: &mut Rng, n: usize, used: &mut BTreeSet<String>) -> Vec<Vw> {
    let very = r.chance(1, 3);
    let huge = r.big == 1 && r.chance(1, 10);
    let (n, deep, wide) = match r.big {
        1 if huge => (r.range(360, 700), false, true),
        1 => (r.range(20, 80), false, r.chance(2, 3)),
        2 if very => (r.range(50, 250), true, false),
        2 => (r.range(15, 60), true, false),
        _ => (n, r.chance(1, 3), false),
    };
    if r.big == 1 || r.big == 2 {
        r.big = 0; // one tree is enough
    }
    // a view inside each other view, or nearly so
    let chain = n > 60 || (n > 10 && deep && r.chance(1, 3));
    let mut flat: Vec<(Option<usize>, Vw)> = vec![];
    for i in 0..n {
        let id = fresh(r, used);
        if id == "root" {
            continue;
        }
        let v = gen_view(r, id, true);
        let parent = if chain && deep && i > 0 && !flat.is_empty() {
            Some(flat.len() - 1 - if r.chance(1, 12) { r.below(flat.len().min(3)) } else { 0 })
        } else if flat.is_empty() || r.chance(1, if deep { 40 } else { 4 }) {
            None
        } else if wide {
            Some(0)
        } else if deep && i > 0 {
            Some(flat.len() - 1 - r.below(flat.len().min(2)))
        } else {
            Some(r.below(flat.len()))
        };
        flat.push((parent, v));
    }
    // assemble from the back
    let mut kids: Vec<Vec<Vw>> = vec![vec![]; flat.len() + 1];
    for (i, (p, mut v)) in flat.into_iter().enumerate().rev() {
        v.children = std::mem::take(&mut kids[i + 1]);
        v.children.reverse();
        kids[p.map_or(0, |p| p + 1)].push(v);
    }
    let mut top = std::mem::take(&mut kids[0]);
    top.reverse();
    top
}

pub const CATEGORY: [u32; 9] = [0xffee7d16, 0xffcc5b22, 0xffe1a92a, 0xff5cb722, 0xff23b9a9, 0xffa1887f, 0xff4a6cd4, 0xfffca5e2, 0xff8a55d7];

fn spec(r: &mut Rng, line: bool) -> String {
    let mut t: Vec<String> = vec![];
    for _ in 0..if r.chance(1, 30) { r.range(8, 30) } else { r.small(5) } {
        t.push(match r.below(12) {
            0 | 1 => "%s".into(),
            2 => "%d".into(),
            3 => "%b".into(),
            4 => format!("%m.{}", ["view", "textview", "varInt", "listStr", "a.b", "é"][r.below(6)]),
            5 => format!("%{}.{}", ["s", "d", "b"][r.below(3)], ["name", "x", "inputOnly", "é", "1"][r.below(5)]),
            6 => ["%", "%", "5%s", "(%s)", "a%d.b", "100%", "x\u{a0}%s", "\u{3000}%d"][r.below(8)].into(),
            7 => ["=", "+", "...", ":", "if", "then", "é", "日本", "a\u{a0}b", "a\u{3000}b\u{2003}c", "\u{200b}", "a\u{2028}b"][r.below(12)].into(),
            8 if !line => ["\"", "a\nb", "\t", "\\", "", "a\t%s", "\n%d", "\r"][r.below(8)].into(),
            _ => ["set", "to", "add", "value", "when", "5%"][r.below(6)].into(),
        });
    }
    let s = t.join(" ");
    if line {
        s.trim().to_string()
    } else {
        s
    }
}

/// a number as somebody would write it into a block
fn number(r: &mut Rng) -> String {
    match r.below(16) {
        0 => ["9007199254740993", "-9007199254740992", "18446744073709551616", "4294967296", "2147483648", "-2147483649", "16777217", "65536"][r.below(8)].to_string(),
        1 => ["+5", "007", ".5", "5.", "1E10", "-0", "1e-10", "2.5e-7", "1e21", "1e300", "5e-324", "0.30000000000000004"][r.below(12)].to_string(),
        2 => format!("{}", r.next() as i64),
        3 => format!("{}", r.next() as i32 as f64 / [7.0, 1e6, 1e12, 3.0][r.below(4)]),
        4 => {
            let f = f64::from_bits(r.next());
            if f.is_finite() { format!("{f:e}") } else { "1".to_string() }
        }
        _ => ["", "0", "1", "-1", "3.5", "1000000", "0.1", "-0.25", "123456789", "1e3"][r.below(10)].to_string(),
    }
}

pub fn gen_blk(r: &mut Rng, depth: usize, budget: &mut i32, arg: Option<char>) -> Blk {
    *budget -= 1;
    let typ = match arg {
        Some('b') => "b",
        Some('d') => "d",
        Some('s') => ["s", "s", "d", "v", "p", "l"][r.below(6)],
        Some(_) => ["v", "p", "l", "s", "d", "b"][r.below(6)],
        None => {
            if depth < 6 && *budget > 0 {
                [" ", " ", "c", "e", "f", "c", "e", "s"][r.below(8)]
            } else {
                [" ", " ", " ", "f"][r.below(4)]
            }
        }
    };
    let tn = match typ {
        "l" => ["List String", "List Number"][r.below(2)].to_string(),
        "v" | "p" => ["TextView", "Intent", "", "a b", "a.b", ".", "é", "com.example.a_very_long_type_name.of.SomeInterestingClass"][r.below(8)].to_string(),
        _ => "".to_string(),
    };
    let sp = if depth > 5 || *budget <= 0 { ["set", "", "a b"][r.below(3)].to_string() } else { spec(r, false) };
    let args = params(&sp)
        .into_iter()
        .map(|p| {
            if *budget > 0 && depth < 7 && r.chance(2, 5) {
                let mut b = gen_blk(r, depth + 1, budget, Some(p));
                if p == 'b' && (b.op == "true" || b.op == "false") {
                    b = Blk { spec: b.op.clone(), color: CATEGORY[3] as i32, args: vec![], ..b };
                }
                Arg::Blk(Box::new(b))
            } else {
                Arg::Lit(match p {
                    'd' => number(r),
                    'b' => ["", "true", "false"][r.below(3)].to_string(),
                    _ => literal(r),
                })
            }
        })
        .collect();
    let mut sub = |r: &mut Rng, on: bool| -> Vec<Blk> {
        if !on || r.chance(1, 4) {
            return vec![];
        }
        let n = 1 + r.small(3);
        (0..n).map_while(|_| if *budget > 0 { Some(gen_blk(r, depth + 1, budget, None)) } else { None }).collect()
    };
    let s1 = sub(r, typ == "c" || typ == "e");
    let s2 = sub(r, typ == "e");
    let op = match arg {
        Some('b') if r.chance(1, 4) => ["true", "false"][r.below(2)].to_string(),
        _ => ["setVar", "if", "ifElse", "addTo", "op_x", "true", "é", "definedFunc", "getVar", ""][r.below(10)].to_string(),
    };
    Blk { op, color: if r.chance(1, 8) { r.next() as i32 } else { *r.pick(&CATEGORY) as i32 }, spec: sp, typ: typ.into(), tn, args, s1, s2 }
}

/// blocks standing for a boolean constant have a fixed look
pub fn fix_consts(c: &mut [Blk]) {
    for b in c {
        fix_blk(b);
    }
}

fn fix_blk(b: &mut Blk) {
    let ps = params(&b.spec);
    for (i, a) in b.args.iter_mut().enumerate() {
        if let Arg::Blk(x) = a {
            if ps.get(i) == Some(&'b') && (x.op == "true" || x.op == "false") {
                **x = Blk { op: x.op.clone(), color: CATEGORY[3] as i32, spec: x.op.clone(), typ: "b".into(), tn: "".into(), args: vec![], s1: vec![], s2: vec![] };
            } else {
                fix_blk(x);
            }
        }
    }
    fix_consts(&mut b.s1);
    fix_consts(&mut b.s2);
}

pub fn gen_code(r: &mut Rng, size: i32) -> Vec<Blk> {
    let mut budget = size;
    if r.big == 3 && r.chance(1, 40) {
        // a program with more blocks than fit in 15 or 16 bits
        r.big = 0;
        let n = [32_767, 32_768, 33_000, 65_535, 65_537][r.below(5)];
        let mut out: Vec<Blk> = vec![];
        let mut left = 3;
        while out.len() < 4 {
            let x = gen_blk(r, 0, &mut left, None);
            out.push(x);
        }
        for _ in 0..n {
            let mut x = gen_blk(r, 6, &mut 0, None);
            x.spec = "set".into();
            x.args = vec![];
            x.s1 = vec![];
            x.s2 = vec![];
            x.typ = " ".into();
            x.tn = "".into();
            out.push(x);
        }
        fix_consts(&mut out);
        return out;
    }
    if r.big == 3 {
        // a long program
        r.big = 0;
        let n = r.range(60, 300);
        let mut out = vec![];
        let mut left = n as i32;
        while left > 0 {
            let mut b = r.below(5) as i32;
            left -= 1 + b;
            let x = gen_blk(r, 0, &mut b, None);
            out.push(x);
        }
        fix_consts(&mut out);
        return out;
    }
    if r.big == 4 {
        // a deep one
        r.big = 0;
        let args = r.chance(1, 3);
        let mut cur = gen_blk(r, 6, &mut 0, if args { Some('s') } else { None });
        for _ in 0..r.range(15, 70) {
            let mut b = gen_blk(r, 6, &mut 0, if args { Some('s') } else { None });
            if args {
                b.spec = ["%s", "a %s b %d", "%d.x %s.y"][r.below(3)].into();
                b.args = params(&b.spec).iter().map(|p| if *p == 's' { Arg::Blk(Box::new(cur.clone())) } else { Arg::Lit("7".into()) }).collect();
            } else {
                b.typ = ["c", "e", "e"][r.below(3)].into();
                let second = b.typ == "e" && r.chance(1, 2);
                let mut body = vec![cur];
                for _ in 0..r.below(2) {
                    let x = gen_blk(r, 6, &mut 0, None);
                    body.insert(r.below(body.len() + 1), x);
                }
                if second {
                    b.s2 = body;
                } else {
                    b.s1 = body;
                }
            }
            cur = b;
        }
        let mut out = vec![];
        if args {
            out.push(Blk { op: "set".into(), color: CATEGORY[0] as i32, spec: "to %s".into(), typ: " ".into(), tn: "".into(), args: vec![Arg::Blk(Box::new(cur))], s1: vec![], s2: vec![] });
        } else {
            out.push(cur);
        }
        fix_consts(&mut out);
        return out;
    }
    let mut out = vec![];
    while budget > 0 {
        out.push(gen_blk(r, 0, &mut budget, None));
        if r.chance(1, 5) {
            break;
        }
    }
    fix_consts(&mut out);
    out
}

const EVENTS: [&str; 6] = ["onClick", "onTextChanged", "onItemClicked", "onLongClick", "onBindCustomView", "ev"];
const ACTS: [&str; 7] = ["onResume", "onPause", "onBackPressed", "onDestroy", "onStart", "onPostCreate", "a"];

fn all_ids(v: &[Vw], out: &mut Vec<String>) {
    for x in v {
        out.push(x.id.clone());
        all_ids(&x.children, out);
    }
}

pub fn view_ids(s: &Scr) -> Vec<String> {
    let mut v = vec![];
    all_ids(&s.views, &mut v);
    v.extend(s.fab.iter().map(|f| f.id.clone()));
    v
}

pub fn gen_event(r: &mut Rng, s: &Scr, code: i32) -> Ev {
    let ids = view_ids(s);
    let n = if code > 0 { r.below(code as usize) as i32 } else { 0 };
    let code = gen_code(r, n);
    let ev = match r.below(16) {
        0 => "onCreate".to_string(),
        1 => name(r),
        _ => r.pick(&EVENTS).to_string(),
    };
    match r.below(3) {
        0 if !ids.is_empty() => Ev { name: ev, kind: Kind::View, target: r.pick(&ids).clone(), code },
        1 if !s.comps.is_empty() => {
            let c = r.pick(&s.comps);
            Ev { name: ev, kind: Kind::Comp(c.1), target: c.0.clone(), code }
        }
        _ => {
            let n = r.pick(&ACTS).to_string();
            Ev { target: n.clone(), name: n, kind: Kind::Act, code }
        }
    }
}

pub fn gen_screen(r: &mut Rng, name: String, f: Focus) -> Scr {
    let w = |on: bool, a: usize, b: usize| if on { a } else { b };
    let all = f == Focus::All;
    let views = all || f == Focus::Views;
    let decl = all || f == Focus::Decl;
    let code = all || f == Focus::Code;
    let mut used = BTreeSet::new();
    let n = r.small(w(views, 12, 3));
    let mut s = Scr {
        name,
        opts: r.below(16) as u8,
        orientation: r.below(3) as u8,
        theme: r.below(4) as i8 - 1,
        keyboard: r.below(3) as u8,
        views: gen_views(r, n, &mut used),
        fab: None,
        vars: vec![],
        lists: vec![],
        comps: vec![],
        events: vec![],
        on_create: None,
        mbs: vec![],
    };
    if r.chance(w(views, 1, 1) as u32, w(views, 2, 5) as u32) {
        let mut v = gen_view(r, "_fab".into(), false);
        v.typ = 16;
        if r.chance(4, 5) {
            set_path(&mut v.attrs, "image.resName", json!("ic_add"));
        }
        s.fab = Some(v);
    }
    if !r.chance(1, 6) {
        let mut u = BTreeSet::new();
        let many = r.big == 5 && decl;
        if many {
            r.big = 0;
        }
                // more than two hundred and fifty-six of one kind
        let very = if many && r.chance(1, 6) { r.range(1, 5) } else { 0 };
        let many = if very > 0 { 0 } else if many { r.range(12, 40) } else { 0 };
        let more = r.range(257, 520);
        let more = |k: usize| if very == k { more } else { 0 };
        for _ in 0..many + more(1) + r.small(w(decl, 6, 2)) {
            let n = fresh(r, &mut u);
            s.vars.push((n, r.below(4) as u8));
        }
        let mut u = BTreeSet::new();
        for _ in 0..many + more(2) + r.small(w(decl, 5, 2)) {
            let n = fresh(r, &mut u);
            s.lists.push((n, r.below(4) as u8));
        }
        for _ in 0..many + more(3) + r.small(w(decl, 6, 2)) {
            let n = fresh(r, &mut used);
            let t = if r.chance(1, 2) { [2, 6, 14, 16][r.below(4)] } else { r.range(1, 21) as u8 };
            let p = if has_param(t) { text(r) } else { String::new() };
            s.comps.push((n, t, p));
        }
        let mut cont: BTreeSet<String> = ["onCreate_initializeLogic".to_string()].into();
        let size = w(code, if r.chance(1, 10) { 60 } else { 14 }, 3) as i32;
        for _ in 0..many + more(4) * 2 + r.small(w(decl || code, 6, 2)) {
            let e = gen_event(r, &s, size);
            if (e.kind != Kind::Act || e.name != "onCreate") && cont.insert(e.container()) {
                s.events.push(e);
            }
        }
        let mut u = BTreeSet::new();
        for _ in 0..many + more(5) + r.small(w(decl || code, 4, 1)) {
            let id = fresh(r, &mut u);
            if cont.insert(format!("{id}_moreBlock")) {
                let sp = spec(r, true);
                let n = r.below(size as usize + 1) as i32;
                s.mbs.push(Mb { spec: if sp.is_empty() { id.clone() } else { sp }, id, code: gen_code(r, n) });
            }
        }
        if r.chance(1, 2) {
            let n = r.below(size as usize + 1) as i32;
            s.on_create = Some(gen_code(r, n));
        }
    }
    s
}

pub fn gen_libs(r: &mut Rng) -> Libs {
    let mut l = Libs { compat: r.chance(1, 2), ..Default::default() };
    if r.chance(1, 2) {
        l.firebase = Some([text(r), text(r), text(r), text(r)]);
    }
    if r.chance(1, 2) {
        l.admob = Some(((0..r.below(3)).map(|_| (text(r), text(r))).collect(), (0..r.below(3)).map(|_| text(r)).collect()));
    }
    if r.chance(1, 2) {
        l.map = Some(text(r));
    }
    l
}

pub fn month_days(y: u32, m: u32) -> u32 {
    match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

pub fn gen_date(r: &mut Rng) -> [u32; 6] {
    let y = match r.below(12) {
        0 => r.below(10000) as u32,
        1 => [1, 999, 1900, 1969, 1970, 2000, 2038, 2100, 2106, 2107, 9999, 0][r.below(12)],
        2 | 3 => 1970 + r.below(80) as u32,
        4 | 5 => 2000 + r.below(30) as u32,
        _ => 2015 + r.below(12) as u32,
    };
    let m = r.range(1, 12) as u32;
    let last = month_days(y, m);
    let d = match r.below(6) {
        0 => last,
        1 => 1,
        _ => r.range(1, last as usize as _) as u32,
    };
    if r.chance(1, 10) {
        return [y, m, d, [0, 12, 23][r.below(3)], [0, 59][r.below(2)], [0, 59][r.below(2)]];
    }
    [y, m, d, r.below(24) as u32, r.below(60) as u32, r.below(60) as u32]
}

pub fn gen_meta(r: &mut Rng) -> Meta {
    Meta {
        id: [600, 601, 999, 0, 1, 65535, 256, r.next() as u16][r.below(8)],
        name: text(r),
        ws: text(r),
        pkg: if r.chance(1, 5) { text(r) } else { format!("com.{}", name(r)) },
        ver_name: if r.chance(1, 4) { text(r) } else { ["1.0", "", "2.3.4-beta", "é", "1.10", " 1.0 "][r.below(6)].into() },
        ver_code: [1, 2, 0, 65535, 31, 256, r.next() as u16][r.below(7)],
        date: gen_date(r),
        sw: [1, 150, 255, 0, r.next() as u8][r.below(5)],
    }
}

pub fn gen_screen_name(r: &mut Rng) -> String {
    const N: [&str; 14] = ["main", "settings", "debug_screen", "a", "login_page", "x1", "very_long_screen_name", "b_2", "second", "about", "z", "listView", "é", "a_b_c_d"];
    const RARE: [&str; 8] = ["a_b", "ab", "aB", "a__b", "screen_", "main_activity", "xml", "java_var"];
    let mut s = if r.chance(1, 12) { r.pick(&RARE).to_string() } else { r.pick(&N).to_string() };
    if r.chance(1, 24) {
        for _ in 0..r.range(1, 10) {
            s.push('_');
            s.push_str(*r.pick(&N));
        }
    }
    if r.chance(1, 4) {
        s.push_str(&r.below(10).to_string());
    }
    s
}

pub fn gen_proj(r: &mut Rng, f: Focus) -> Proj {
    let settings = f == Focus::Settings || f == Focus::All;
    // sometimes one dimension of a project is large: wide layouts, deep layouts, long code, deep code,
    // many declarations, many screens, many resources
    r.big = if r.chance(1, 14) {
        match f {
            Focus::Views => [1, 2, 6, 8][r.below(4)],
            Focus::Code => [3, 4, 6, 8][r.below(4)],
            Focus::Decl => [5, 6, 8][r.below(3)],
            Focus::Settings => [6, 7, 8][r.below(3)],
            Focus::All => r.range(1, 8) as u8,
        }
    } else {
        0
    };
    let many = if r.big == 6 && r.chance(1, 12) { r.range(65, 140) } else if r.big == 6 { r.range(8, 24) } else { 0 };
    let mut p = Proj {
        meta: gen_meta(r),
        colors: [-16740915, -16743230, -16740915, -11026706, 536907213],
        icon: r.chance(1, 3),
        screens: vec![],
        customs: vec![],
        libs: if settings { gen_libs(r) } else { Libs::default() },
        res: [vec![], vec![], vec![]],
    };
    for c in p.colors.iter_mut() {
        if r.chance(1, 2) {
            *c = [0, -1, 1, i32::MIN, i32::MAX, r.next() as i32][r.below(6)];
        }
    }
    let mut names = BTreeSet::new();
    let mut javas = BTreeSet::new();
    for i in 0..match r.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        _ => r.range(1, 4),
    }
    .max(many)
    .max((r.big != 0) as usize)
    {
        let n = if many > 0 && r.chance(3, 4) {
            format!("{}{i}", gen_screen_name(r))
        } else if i == 0 && r.chance(1, 2) { "main".to_string() } else { gen_screen_name(r) };
        if names.insert(n.clone()) && javas.insert(java_name(&n)) {
            p.screens.push(gen_screen(r, n, if many > 0 && i > 2 { Focus::Settings } else { f }));
        }
    }
    for i in 0..r.small(3).max(many / 2) {
        let n = if many > 0 && r.chance(1, 2) { format!("cv_{i}") } else if r.chance(1, 4) && !p.screens.is_empty() { format!("_drawer_{}", r.pick(&p.screens).name) } else { format!("{}_cv", gen_screen_name(r)) };
        if names.insert(n.clone()) {
            let k = r.small(if f == Focus::Views || f == Focus::All { 8 } else { 2 });
            p.customs.push(Cst { name: n, views: gen_views(r, k, &mut BTreeSet::new()) });
        }
    }
    if settings || r.chance(1, 5) {
        let mut u = BTreeSet::new();
        let lots = if r.chance(1, 6) { r.below(3) } else { 3 };
        for k in 0..3 {
            for _ in 0..r.small(4).max(if r.big == 7 && k == lots { r.range(101, 300) } else if r.big == 7 { r.range(9, 40) } else { 0 }) {
                let n = if r.chance(1, 12) {
                    let n = text(r);
                    if n.is_empty() || n.contains('/') || n.contains('\0') || n.len() > 240 || !u.insert(n.clone()) {
                        continue;
                    }
                    n
                } else {
                    fresh(r, &mut u)
                };
                let full = format!("{n}.{}", [["png", "jpg"], ["mp3", "ogg"], ["ttf", "otf"]][k][r.below(2)]);
                p.res[k].push((n, full));
            }
        }
    }
    p
}
