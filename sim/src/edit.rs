//! Edits a program makes through the high-level model, mirrored on the reference model.

use crate::bridge::*;
use crate::model::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};
use std::collections::BTreeSet;
use swrs::api::block::{ArgValue, Argument, Block, Blocks};
use swrs::api::screen::{EventType, Screen};
use swrs::api::view::View;
use swrs::api::{ResourceId, SketchwareProject};
use swrs::parser::{ResourceFileWrapper, ResourceType};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Meta(Meta),
    Color(usize, i32),
    Icon(bool),
    AddScreen { at: usize, s: Box<Scr>, style: u64 },
    DelScreen(usize),
    SwapScreens(usize, usize),
    RenameScreen(usize, String),
    Opts { i: usize, opts: u8, orientation: u8, theme: i8, keyboard: u8 },
    AddCustom { at: usize, c: Cst },
    DelCustom(usize),
    SwapCustoms(usize, usize),
    Libs(Libs),
    PutRes { kind: usize, name: String, full: String },
    DelRes { kind: usize, i: usize },
    AddView { l: usize, parent: usize, at: usize, v: Box<Vw> },
    DelView { l: usize, n: usize },
    MoveView { l: usize, n: usize, parent: usize, at: usize },
    RenameView { l: usize, n: usize, id: String },
    Attr { l: usize, n: usize, path: String, val: Value },
    Type { l: usize, n: usize, typ: u8, attrs: Map<String, Value> },
    Fab { s: usize, v: Option<Box<Vw>> },
    FabAttr { s: usize, path: String, val: Value },
    Code { s: usize, c: usize, code: Vec<Blk>, style: u64 },
    InsBlk { s: usize, c: usize, nav: Vec<u8>, b: Box<Blk>, style: u64 },
    DelBlk { s: usize, c: usize, nav: Vec<u8> },
    SetArg { s: usize, c: usize, nav: Vec<u8>, k: usize, a: Arg, style: u64 },
    SetBlk { s: usize, c: usize, nav: Vec<u8>, op: String, color: i32 },
    AddVar { s: usize, name: String, typ: u8, list: bool },
    DelVar { s: usize, i: usize, list: bool },
    AddComp { s: usize, id: String, typ: u8, p: String },
    DelComp { s: usize, i: usize },
    AddEvent { s: usize, at: usize, e: Ev, style: u64 },
    DelEvent { s: usize, i: usize },
    SwapEvents { s: usize, i: usize, j: usize },
    OnCreate { s: usize, code: Option<Vec<Blk>>, style: u64 },
    AddMb { s: usize, b: Mb, style: u64 },
    DelMb { s: usize, i: usize },
    MbSpec { s: usize, i: usize, spec: String },
}

pub fn gen(r: &mut Rng, f: Focus) -> Edit {
    let kinds: &[u8] = match f {
        Focus::Code => &[20, 21, 21, 22, 22, 23, 23, 24, 29, 30, 31, 32, 34, 3, 4],
        Focus::Views => &[14, 14, 15, 16, 17, 18, 18, 18, 19, 19, 25, 26, 3, 4, 8, 9],
        Focus::Settings => &[0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10, 11, 12, 12, 13],
        Focus::Decl => &[27, 27, 28, 35, 36, 29, 29, 30, 31, 32, 33, 34, 37, 3, 4, 6, 17, 19],
        Focus::All => &[
            0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37,
        ],
    };
    let s = r.below(6);
    let style = r.next() >> 12;
    let nav = |r: &mut Rng| (0..r.below(8)).map(|_| r.next() as u8).collect::<Vec<u8>>();
    match *r.pick(kinds) {
        0 => Edit::Meta(gen_meta(r)),
        1 => Edit::Color(r.below(5), r.next() as i32),
        2 => Edit::Icon(r.chance(1, 2)),
        3 => {
            let n = gen_screen_name(r);
            Edit::AddScreen { at: r.below(5), s: Box::new(gen_screen(r, n, f)), style }
        }
        4 => Edit::DelScreen(s),
        5 => Edit::SwapScreens(s, r.below(6)),
        6 => Edit::RenameScreen(s, gen_screen_name(r)),
        7 => Edit::Opts { i: s, opts: r.below(16) as u8, orientation: r.below(3) as u8, theme: r.below(4) as i8 - 1, keyboard: r.below(3) as u8 },
        8 => {
            let k = r.small(4);
            Edit::AddCustom { at: r.below(4), c: Cst { name: format!("{}_cv{}", gen_screen_name(r), r.below(5)), views: gen_views(r, k, &mut BTreeSet::new()) } }
        }
        9 => Edit::DelCustom(r.below(4)),
        10 => Edit::SwapCustoms(r.below(4), r.below(4)),
        11 => Edit::Libs(gen_libs(r)),
        12 => {
            let n = name(r);
            Edit::PutRes { kind: r.below(3), full: format!("{n}.bin"), name: n }
        }
        13 => Edit::DelRes { kind: r.below(3), i: r.below(5) },
        14 => {
            let id = format!("{}_n{}", name(r), r.below(9));
            let mut v = gen_view(r, id.clone(), true);
            if r.chance(1, 3) {
                v.children.push(gen_view(r, format!("{id}_k"), true));
            }
            Edit::AddView { l: r.below(6), parent: r.below(12), at: r.below(5), v: Box::new(v) }
        }
        15 => Edit::DelView { l: r.below(6), n: r.below(16) },
        16 => Edit::MoveView { l: r.below(6), n: r.below(16), parent: r.below(12), at: r.below(4) },
        17 => Edit::RenameView { l: r.below(6), n: r.below(16), id: format!("{}_r{}", name(r), r.below(9)) },
        18 => {
            let paths = attr_paths();
            let t = *r.pick(&[0, 3, 4, 5, 6, 8, 9, 10, 11, 14, 15, 17]);
            let p = if r.chance(1, 2) || typed(t).is_empty() { r.pick(&paths).clone() } else { r.pick(typed(t)).to_string() };
            let val = gen_attr(r, &p);
            Edit::Attr { l: r.below(6), n: r.below(16), path: p, val }
        }
        19 => {
            let v = gen_view(r, "x".into(), false);
            Edit::Type { l: r.below(6), n: r.below(16), typ: v.typ, attrs: v.attrs }
        }
        20 => {
            let n = r.below(16) as i32;
            Edit::Code { s, c: r.below(8), code: gen_code(r, n), style }
        }
        21 => {
            let mut n = 5;
            let mut b = gen_blk(r, 3, &mut n, None);
            fix_consts(std::slice::from_mut(&mut b));
            Edit::InsBlk { s, c: r.below(8), nav: nav(r), b: Box::new(b), style }
        }
        22 => Edit::DelBlk { s, c: r.below(8), nav: nav(r) },
        23 => {
            let mut n = 5;
            let a = if r.chance(1, 2) {
                let t = *r.pick(&['s', 'd', 'b', 'm']);
                let b = gen_blk(r, 3, &mut n, Some(t));
                let mut b = [b];
                fix_consts(&mut b);
                let [b] = b;
                Arg::Blk(Box::new(b))
            } else {
                Arg::Lit(["", "1", "true", "false", "-2.5", "txt", "a b", "é"][r.below(8)].into())
            };
            Edit::SetArg { s, c: r.below(8), nav: nav(r), k: r.below(3), a, style }
        }
        24 => Edit::SetBlk { s, c: r.below(8), nav: nav(r), op: name(r), color: r.next() as i32 },
        25 => {
            let mut v = gen_view(r, "_fab".into(), false);
            v.typ = 16;
            Edit::Fab { s, v: if r.chance(1, 3) { None } else { Some(Box::new(v)) } }
        }
        26 => {
            let p = r.pick(&attr_paths()).clone();
            let val = gen_attr(r, &p);
            Edit::FabAttr { s, path: p, val }
        }
        27 => Edit::AddVar { s, name: name(r), typ: r.below(4) as u8, list: r.chance(1, 2) },
        28 => Edit::DelVar { s, i: r.below(5), list: r.chance(1, 2) },
        29 => {
            let n = r.below(8) as i32;
            let code = gen_code(r, n);
            let e = if r.chance(1, 2) {
                let n = ["onResume", "onPause", "onBackPressed", "onStop"][r.below(4)].to_string();
                Ev { target: n.clone(), name: n, kind: Kind::Act, code }
            } else {
                Ev { name: ["onClick", "onLongClick"][r.below(2)].into(), kind: Kind::Comp(r.range(1, 21) as u8), target: name(r), code }
            };
            Edit::AddEvent { s, at: r.below(5), e, style }
        }
        30 => Edit::DelEvent { s, i: r.below(5) },
        31 => Edit::SwapEvents { s, i: r.below(5), j: r.below(5) },
        32 => {
            let n = r.below(10) as i32;
            Edit::OnCreate { s, code: if r.chance(1, 3) { None } else { Some(gen_code(r, n)) }, style }
        }
        33 => Edit::DelMb { s, i: r.below(4) },
        34 => {
            let n = r.below(8) as i32;
            Edit::AddMb { s, b: Mb { id: name(r), spec: ["do", "do %s", "do %s.x and %d.y", "set %b.flag %m.view", "a  b"][r.below(5)].into(), code: gen_code(r, n) }, style }
        }
        35 => {
            let t = r.range(1, 21) as u8;
            let p = if has_param(t) { text(r) } else { "".into() };
            Edit::AddComp { s, id: format!("{}_c", name(r)), typ: t, p }
        }
        36 => Edit::DelComp { s, i: r.below(5) },
        _ => Edit::MbSpec { s, i: r.below(4), spec: ["x", "new %s.name", "%d.n %b.f", "é %m.view"][r.below(4)].into() },
    }
}

// ---------------------------------------------------------------- addressing

/// layouts: those of the screens, then those of the custom views
fn layout_m(p: &mut Proj, l: usize) -> Option<&mut Vec<Vw>> {
    let n = p.screens.len() + p.customs.len();
    if n == 0 {
        return None;
    }
    let l = l % n;
    let ns = p.screens.len();
    Some(if l < ns { &mut p.screens[l].views } else { &mut p.customs[l - ns].views })
}

fn layout_a(p: &mut SketchwareProject, l: usize) -> Option<&mut Vec<View>> {
    let n = p.screens.len() + p.custom_views.len();
    if n == 0 {
        return None;
    }
    let l = l % n;
    let ns = p.screens.len();
    Some(if l < ns { &mut p.screens[l].layout } else { &mut p.custom_views[l - ns].layout })
}

/// positions of all views, in preorder
fn paths(v: &[Vw], at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (i, x) in v.iter().enumerate() {
        at.push(i);
        out.push(at.clone());
        paths(&x.children, at, out);
        at.pop();
    }
}

fn view_path(v: &[Vw], n: usize) -> Option<Vec<usize>> {
    let mut out = vec![];
    paths(v, &mut vec![], &mut out);
    if out.is_empty() {
        None
    } else {
        Some(out[n % out.len()].clone())
    }
}

fn kids_m<'a>(v: &'a mut Vec<Vw>, path: &[usize]) -> &'a mut Vec<Vw> {
    path.iter().fold(v, |v, i| &mut v[*i].children)
}

fn kids_a<'a>(v: &'a mut Vec<View>, path: &[usize]) -> Option<&'a mut Vec<View>> {
    let mut v = v;
    for i in path {
        v = &mut v.get_mut(*i)?.children;
    }
    Some(v)
}

/// a view of the layout, by its position or by its id
fn view_a<'a>(m: &[Vw], v: &'a mut Vec<View>, path: &[usize], by_id: bool) -> Option<&'a mut View> {
    let (last, up) = path.split_last()?;
    if by_id {
        let id = &up.iter().fold(m, |v, i| &v[*i].children)[*last].id;
        return v.iter_mut().find_map(|x| x.find_id_mut(id));
    }
    kids_a(v, up)?.get_mut(*last)
}

enum Code {
    OnCreate,
    Event(usize),
    Mb(usize),
}

fn code_of(s: &Scr, c: usize) -> Option<Code> {
    let mut v = vec![];
    if s.on_create.is_some() {
        v.push(Code::OnCreate);
    }
    v.extend((0..s.events.len()).map(Code::Event));
    v.extend((0..s.mbs.len()).map(Code::Mb));
    if v.is_empty() {
        return None;
    }
    let n = v.len();
    v.into_iter().nth(c % n)
}

fn code_m<'a>(s: &'a mut Scr, c: &Code) -> &'a mut Vec<Blk> {
    match c {
        Code::OnCreate => s.on_create.as_mut().unwrap(),
        Code::Event(i) => &mut s.events[*i].code,
        Code::Mb(i) => &mut s.mbs[*i].code,
    }
}

fn is_on_create(e: &swrs::api::screen::Event) -> bool {
    e.name == "onCreate" && e.event_type == EventType::ActivityEvent
}

/// index of the i-th event that is not onCreate
fn event_at(s: &Screen, i: usize) -> usize {
    let mut n = 0;
    for (k, e) in s.events.iter().enumerate() {
        if !is_on_create(e) {
            if n == i {
                return k;
            }
            n += 1;
        }
    }
    s.events.len()
}

fn code_a<'a>(s: &'a mut Screen, m: &Scr, c: &Code) -> Option<&'a mut Blocks> {
    match c {
        Code::OnCreate => s.events.iter_mut().find(|e| is_on_create(e)).map(|e| &mut e.code),
        Code::Event(i) => {
            let i = event_at(s, *i);
            s.events.get_mut(i).map(|e| &mut e.code)
        }
        Code::Mb(i) => s.more_blocks.get_mut(&m.mbs[*i].id).map(|b| &mut b.code),
    }
}

#[derive(Clone, Debug)]
enum Step {
    S1(usize),
    S2(usize),
    Arg(usize, usize),
}

/// walks down; returns the steps to a list of blocks and an index into it
fn navigate(code: &[Blk], nav: &[u8]) -> (Vec<Step>, usize) {
    let mut steps = vec![];
    let mut list = code;
    let mut it = nav.iter();
    let mut idx = 0;
    while let Some(n) = it.next() {
        idx = *n as usize;
        if list.is_empty() {
            break;
        }
        let i = idx % list.len();
        let b = &list[i];
        let ps = params(&b.spec);
        let mut ways: Vec<(Step, &[Blk])> = vec![];
        if !b.s1.is_empty() {
            ways.push((Step::S1(i), &b.s1));
        }
        if !b.s2.is_empty() {
            ways.push((Step::S2(i), &b.s2));
        }
        for (k, a) in b.args.iter().enumerate() {
            if let Arg::Blk(x) = a {
                let constant = ps.get(k) == Some(&'b') && (x.op == "true" || x.op == "false");
                if !constant {
                    ways.push((Step::Arg(i, k), std::slice::from_ref(&**x)));
                }
            }
        }
        let Some(m) = it.next() else { break };
        if ways.is_empty() || m % 3 == 0 {
            break;
        }
        let w = *m as usize % ways.len();
        let (st, l) = ways.swap_remove(w);
        steps.push(st);
        list = l;
        idx = 0;
    }
    (steps, idx)
}

enum ListM<'a> {
    Many(&'a mut Vec<Blk>),
    One(&'a mut Blk),
}

fn list_m<'a>(code: &'a mut Vec<Blk>, steps: &[Step]) -> ListM<'a> {
    let mut cur = ListM::Many(code);
    for s in steps {
        let b: &'a mut Blk = match (cur, s) {
            (ListM::Many(v), Step::S1(i) | Step::S2(i) | Step::Arg(i, _)) => &mut v[*i],
            (ListM::One(b), _) => b,
        };
        cur = match s {
            Step::S1(_) => ListM::Many(&mut b.s1),
            Step::S2(_) => ListM::Many(&mut b.s2),
            Step::Arg(_, k) => match &mut b.args[*k] {
                Arg::Blk(x) => ListM::One(x),
                _ => unreachable!(),
            },
        };
    }
    cur
}

enum ListA<'a> {
    Many(&'a mut Vec<Block>),
    One(&'a mut Block),
}

fn list_a<'a>(code: &'a mut Blocks, steps: &[Step]) -> Option<ListA<'a>> {
    let mut cur = ListA::Many(&mut code.0);
    for s in steps {
        let b: &'a mut Block = match (cur, s) {
            (ListA::Many(v), Step::S1(i) | Step::S2(i) | Step::Arg(i, _)) => v.get_mut(*i)?,
            (ListA::One(b), _) => b,
        };
        cur = match s {
            Step::S1(_) => ListA::Many(&mut b.sub_stack1.as_mut()?.0),
            Step::S2(_) => ListA::Many(&mut b.sub_stack2.as_mut()?.0),
            Step::Arg(_, k) => {
                let a = b.content.get_args_mut().into_iter().nth(*k)?;
                match a {
                    Argument::String { value: ArgValue::Block(x), .. } => ListA::One(x),
                    Argument::Number { value: ArgValue::Block(x), .. } => ListA::One(x),
                    Argument::Boolean { value: ArgValue::Block(x), .. } => ListA::One(x),
                    Argument::Menu { value: ArgValue::Block(x), .. } => ListA::One(x),
                    _ => return None,
                }
            }
        };
    }
    Some(cur)
}

fn set_arg(a: &mut Argument, x: &Arg, style: u64) {
    fn put<T: std::fmt::Debug + Clone + PartialEq>(v: &mut ArgValue<T>, x: &Arg, style: u64, f: impl Fn(&str) -> Option<T>) {
        *v = match x {
            Arg::Blk(b) => ArgValue::Block(block_out(b, style)),
            Arg::Lit(s) => f(s).map_or(ArgValue::Empty, ArgValue::Value),
        };
    }
    match a {
        Argument::String { value, .. } | Argument::Menu { value, .. } => put(value, x, style, |s| Some(s.to_string())),
        Argument::Number { value, .. } => put(value, x, style, |s| s.parse().ok()),
        Argument::Boolean { value, .. } => put(value, x, style, |s| s.parse().ok()),
    }
}

/// Applies the edit to the model; Err: it does not apply (the edit is skipped)
fn on_model(e: &Edit, p: &mut Proj) -> Option<()> {
    let n = p.screens.len();
    let scr = |s: &usize| if n == 0 { None } else { Some(*s % n) };
    match e {
        Edit::Meta(m) => p.meta = m.clone(),
        Edit::Color(i, c) => p.colors[*i % 5] = *c,
        Edit::Icon(b) => p.icon = *b,
        Edit::AddScreen { at, s, .. } => p.screens.insert(*at % (n + 1), (**s).clone()),
        Edit::DelScreen(i) => {
            p.screens.remove(scr(i)?);
        }
        Edit::SwapScreens(i, j) => p.screens.swap(scr(i)?, scr(j)?),
        Edit::RenameScreen(i, s) => p.screens[scr(i)?].name = s.clone(),
        Edit::Opts { i, opts, orientation, theme, keyboard } => {
            let s = &mut p.screens[scr(i)?];
            s.opts = *opts;
            s.orientation = *orientation;
            s.theme = *theme;
            s.keyboard = *keyboard;
        }
        Edit::AddCustom { at, c } => {
            let n = p.customs.len();
            p.customs.insert(*at % (n + 1), c.clone())
        }
        Edit::DelCustom(i) => {
            let n = p.customs.len();
            p.customs.remove(i.checked_rem(n)?);
        }
        Edit::SwapCustoms(i, j) => {
            let n = p.customs.len();
            p.customs.swap(i.checked_rem(n)?, j.checked_rem(n)?)
        }
        Edit::Libs(l) => p.libs = l.clone(),
        Edit::PutRes { kind, name, full } => p.res[*kind % 3].push((name.clone(), full.clone())),
        Edit::DelRes { kind, i } => {
            let v = &mut p.res[*kind % 3];
            v.remove(i.checked_rem(v.len())?);
        }
        Edit::AddView { l, parent, at, v } => {
            let lay = layout_m(p, *l)?;
            let path = if *parent == 0 { vec![] } else { view_path(lay, *parent).unwrap_or_default() };
            let k = kids_m(lay, &path);
            k.insert(*at % (k.len() + 1), (**v).clone());
        }
        Edit::DelView { l, n } => {
            let lay = layout_m(p, *l)?;
            let mut path = view_path(lay, *n)?;
            let i = path.pop()?;
            kids_m(lay, &path).remove(i);
        }
        Edit::MoveView { l, n, parent, at } => {
            let lay = layout_m(p, *l)?;
            let mut path = view_path(lay, *n)?;
            let i = path.pop()?;
            let v = kids_m(lay, &path).remove(i);
            let to = if *parent == 0 { vec![] } else { view_path(lay, *parent).unwrap_or_default() };
            let k = kids_m(lay, &to);
            k.insert(*at % (k.len() + 1), v);
        }
        Edit::RenameView { l, n, id } => {
            let lay = layout_m(p, *l)?;
            let mut path = view_path(lay, *n)?;
            let i = path.pop()?;
            kids_m(lay, &path)[i].id = id.clone();
        }
        Edit::Attr { l, n, path: a, val } => {
            let lay = layout_m(p, *l)?;
            let mut path = view_path(lay, *n)?;
            let i = path.pop()?;
            let v = &mut kids_m(lay, &path)[i];
            shown_or_raw(v, a)?;
            set_path(&mut v.attrs, a, val.clone());
        }
        Edit::Type { l, n, typ, attrs } => {
            let lay = layout_m(p, *l)?;
            let mut path = view_path(lay, *n)?;
            let i = path.pop()?;
            let v = &mut kids_m(lay, &path)[i];
            view_type(*typ, attrs)?;
            v.typ = *typ;
            for t in typed(*typ) {
                let x = get_path(attrs, t).cloned().unwrap_or_else(|| Value::String("".into()));
                set_path(&mut v.attrs, t, x);
            }
        }
        Edit::Fab { s, v } => p.screens[scr(s)?].fab = v.as_ref().map(|v| (**v).clone()),
        Edit::FabAttr { s, path, val } => {
            let v = p.screens[scr(s)?].fab.as_mut()?;
            shown_or_raw(v, path)?;
            set_path(&mut v.attrs, path, val.clone());
        }
        Edit::Code { s, c, code, .. } => {
            let s = &mut p.screens[scr(s)?];
            let c = code_of(s, *c)?;
            *code_m(s, &c) = code.clone();
        }
        Edit::InsBlk { s, c, nav, b, .. } => {
            let s = &mut p.screens[scr(s)?];
            let c = code_of(s, *c)?;
            let code = code_m(s, &c);
            let (steps, i) = navigate(code, nav);
            match list_m(code, &steps) {
                ListM::Many(v) => v.insert(i % (v.len() + 1), (**b).clone()),
                ListM::One(_) => return None,
            }
        }
        Edit::DelBlk { s, c, nav } => {
            let s = &mut p.screens[scr(s)?];
            let c = code_of(s, *c)?;
            let code = code_m(s, &c);
            let (steps, i) = navigate(code, nav);
            match list_m(code, &steps) {
                ListM::Many(v) => {
                    v.remove(i.checked_rem(v.len())?);
                }
                ListM::One(_) => return None,
            }
        }
        Edit::SetArg { s, c, nav, k, a, .. } => {
            let s = &mut p.screens[scr(s)?];
            let c = code_of(s, *c)?;
            let code = code_m(s, &c);
            let (steps, i) = navigate(code, nav);
            let b = pick_m(list_m(code, &steps), i)?;
            let k = k.checked_rem(b.args.len())?;
            b.args[k] = a.clone();
        }
        Edit::SetBlk { s, c, nav, op, color } => {
            let s = &mut p.screens[scr(s)?];
            let c = code_of(s, *c)?;
            let code = code_m(s, &c);
            let (steps, i) = navigate(code, nav);
            let b = pick_m(list_m(code, &steps), i)?;
            if op == "true" || op == "false" {
                return None;
            }
            b.op = op.clone();
            b.color = *color;
        }
        Edit::AddVar { s, name, typ, list } => {
            let s = &mut p.screens[scr(s)?];
            if *list { &mut s.lists } else { &mut s.vars }.push((name.clone(), *typ));
        }
        Edit::DelVar { s, i, list } => {
            let s = &mut p.screens[scr(s)?];
            let v = if *list { &mut s.lists } else { &mut s.vars };
            v.remove(i.checked_rem(v.len())?);
        }
        Edit::AddComp { s, id, typ, p: x } => p.screens[scr(s)?].comps.push((id.clone(), *typ, x.clone())),
        Edit::DelComp { s, i } => {
            let v = &mut p.screens[scr(s)?].comps;
            v.remove(i.checked_rem(v.len())?);
        }
        Edit::AddEvent { s, at, e, .. } => {
            let v = &mut p.screens[scr(s)?].events;
            v.insert(*at % (v.len() + 1), e.clone());
        }
        Edit::DelEvent { s, i } => {
            let v = &mut p.screens[scr(s)?].events;
            v.remove(i.checked_rem(v.len())?);
        }
        Edit::SwapEvents { s, i, j } => {
            let v = &mut p.screens[scr(s)?].events;
            let (i, j) = (i.checked_rem(v.len())?, j.checked_rem(v.len())?);
            v.swap(i, j);
        }
        Edit::OnCreate { s, code, .. } => p.screens[scr(s)?].on_create = code.clone(),
        Edit::AddMb { s, b, .. } => p.screens[scr(s)?].mbs.push(b.clone()),
        Edit::DelMb { s, i } => {
            let v = &mut p.screens[scr(s)?].mbs;
            v.remove(i.checked_rem(v.len())?);
        }
        Edit::MbSpec { s, i, spec } => {
            let v = &mut p.screens[scr(s)?].mbs;
            let i = i.checked_rem(v.len())?;
            v[i].spec = spec.clone();
        }
    }
    Some(())
}

/// the attribute is shown by the type of the view, or by no type at all (a raw attribute that
/// gets overwritten by a typed one is no edit)
fn shown_or_raw(v: &Vw, a: &str) -> Option<()> {
    // a view without a picture has no typed fields; giving it one in the raw view is another edit
    if a == "image.resName" && get_path(&v.attrs, a).is_none() {
        return None;
    }
    Some(())
}

fn pick_m(l: ListM<'_>, i: usize) -> Option<&mut Blk> {
    match l {
        ListM::Many(v) => {
            let n = v.len();
            v.get_mut(i.checked_rem(n)?)
        }
        ListM::One(b) => Some(b),
    }
}

fn pick_a(l: ListA<'_>, i: usize) -> Option<&mut Block> {
    match l {
        ListA::Many(v) => {
            let n = v.len();
            v.get_mut(i.checked_rem(n)?)
        }
        ListA::One(b) => Some(b),
    }
}

pub fn res_type(k: usize) -> ResourceType {
    [ResourceType::Image, ResourceType::Sound, ResourceType::Font][k % 3]
}

/// the same edit on the objects of swrs; `m` is the model before the edit.
/// None: something that is in the model could not be found
fn on_api(e: &Edit, m: &Proj, p: &mut SketchwareProject) -> Option<()> {
    let n = m.screens.len();
    let scr = |s: &usize| *s % n.max(1);
    let mut mm = m.clone();
    match e {
        Edit::Meta(x) => p.metadata = meta_out(x),
        Edit::Color(i, c) => {
            let c = to_col(*c);
            match *i % 5 {
                0 => p.colors.color_primary = c,
                1 => p.colors.color_primary_dark = c,
                2 => p.colors.color_accent = c,
                3 => p.colors.color_control_normal = c,
                _ => p.colors.color_control_highlight = c,
            }
        }
        Edit::Icon(b) => {
            p.custom_icon = if *b { Some(ResourceFileWrapper::StringId { id: "icon".into(), res_full_name: "icon.png".into(), res_type: ResourceType::CustomIcon }) } else { None }
        }
        Edit::AddScreen { at, s, style } => p.screens.insert(*at % (n + 1), screen_out(s, *style).ok()?),
        Edit::DelScreen(i) => {
            p.screens.remove(scr(i));
        }
        Edit::SwapScreens(i, j) => p.screens.swap(scr(i), scr(j)),
        Edit::RenameScreen(i, s) => {
            let x = p.screens.get_mut(scr(i))?;
            x.layout_name = s.clone();
            x.java_name = java_name(s);
        }
        Edit::Opts { i, opts, orientation, theme, keyboard } => {
            let s = p.screens.get_mut(scr(i))?;
            s.toolbar_enabled = opts & 1 != 0;
            s.fullscreen_enabled = opts & 2 != 0;
            s.drawer_enabled = opts & 4 != 0;
            s.fab_enabled = opts & 8 != 0;
            s.orientation = or_out(*orientation);
            s.theme = th_out(*theme);
            s.keyboard_setting = kb_out(*keyboard);
        }
        Edit::AddCustom { at, c } => p.custom_views.insert(*at % (m.customs.len() + 1), custom_out(c).ok()?),
        Edit::DelCustom(i) => {
            p.custom_views.remove(*i % m.customs.len());
        }
        Edit::SwapCustoms(i, j) => p.custom_views.swap(*i % m.customs.len(), *j % m.customs.len()),
        Edit::Libs(l) => p.libraries = libs_out(l),
        Edit::PutRes { kind, name, full } => p
            .resources
            .put_resource(
                ResourceId(name.clone()),
                ResourceFileWrapper::StringId { id: format!("file {full}"), res_full_name: full.clone(), res_type: res_type(*kind) },
                res_type(*kind),
            )
            .ok()?,
        Edit::DelRes { kind, i } => {
            let v = &m.res[*kind % 3];
            p.resources.remove_resource(&ResourceId(v[*i % v.len()].0.clone()))?;
        }
        Edit::AddView { l, parent, at, v } => {
            let lay = layout_m(&mut mm, *l)?;
            let path = if *parent == 0 { vec![] } else { view_path(lay, *parent).unwrap_or_default() };
            let k = kids_a(layout_a(p, *l)?, &path)?;
            k.insert(*at % (k.len() + 1), view_out(v).ok()?);
        }
        Edit::DelView { l, n } => {
            let mut path = view_path(layout_m(&mut mm, *l)?, *n)?;
            let i = path.pop()?;
            let k = kids_a(layout_a(p, *l)?, &path)?;
            if i >= k.len() {
                return None;
            }
            k.remove(i);
        }
        Edit::MoveView { l, n, parent, at } => {
            let lay = layout_m(&mut mm, *l)?;
            let mut path = view_path(lay, *n)?;
            let i = path.pop()?;
            kids_m(lay, &path).remove(i);
            let to = if *parent == 0 { vec![] } else { view_path(lay, *parent).unwrap_or_default() };
            let a = layout_a(p, *l)?;
            let k = kids_a(a, &path)?;
            if i >= k.len() {
                return None;
            }
            let v = k.remove(i);
            let k = kids_a(a, &to)?;
            k.insert(*at % (k.len() + 1), v);
        }
        Edit::RenameView { l, n, id } => {
            let lay = layout_m(&mut mm, *l)?;
            let path = view_path(lay, *n)?;
            view_a(lay, layout_a(p, *l)?, &path, *n % 2 == 1)?.id = id.clone();
        }
        Edit::Attr { l, n, path: a, val } => {
            let lay = layout_m(&mut mm, *l)?;
            let path = view_path(lay, *n)?;
            set_attr(view_a(lay, layout_a(p, *l)?, &path, *n % 2 == 1)?, a, val);
        }
        Edit::Type { l, n, typ, attrs } => {
            let lay = layout_m(&mut mm, *l)?;
            let path = view_path(lay, *n)?;
            view_a(lay, layout_a(p, *l)?, &path, *n % 2 == 1)?.view = Ok(view_type(*typ, attrs)?);
        }
        Edit::Fab { s, v } => {
            let v = match v {
                Some(v) => Some(view_out(v).ok()?),
                None => None,
            };
            p.screens.get_mut(scr(s))?.fab = v
        }
        Edit::FabAttr { s, path, val } => set_attr(p.screens.get_mut(scr(s))?.fab.as_mut()?, path, val),
        Edit::Code { s, c, code, style } => {
            let ms = &m.screens[scr(s)];
            *code_a(p.screens.get_mut(scr(s))?, ms, &code_of(ms, *c)?)? = code_out(code, *style);
        }
        Edit::InsBlk { s, c, nav, b, style } => {
            let ms = &mut mm.screens[scr(s)];
            let c = code_of(ms, *c)?;
            let (steps, i) = navigate(code_m(ms, &c), nav);
            match list_a(code_a(p.screens.get_mut(scr(s))?, ms, &c)?, &steps)? {
                ListA::Many(v) => v.insert(i % (v.len() + 1), block_out(b, *style)),
                ListA::One(_) => return None,
            }
        }
        Edit::DelBlk { s, c, nav } => {
            let ms = &mut mm.screens[scr(s)];
            let c = code_of(ms, *c)?;
            let (steps, i) = navigate(code_m(ms, &c), nav);
            match list_a(code_a(p.screens.get_mut(scr(s))?, ms, &c)?, &steps)? {
                ListA::Many(v) => {
                    v.remove(i.checked_rem(v.len())?);
                }
                ListA::One(_) => return None,
            }
        }
        Edit::SetArg { s, c, nav, k, a, style } => {
            let ms = &mut mm.screens[scr(s)];
            let c = code_of(ms, *c)?;
            let (steps, i) = navigate(code_m(ms, &c), nav);
            let b = pick_a(list_a(code_a(p.screens.get_mut(scr(s))?, ms, &c)?, &steps)?, i)?;
            let mut args = b.content.get_args_mut();
            let k = k.checked_rem(args.len())?;
            set_arg(args[k], a, *style);
        }
        Edit::SetBlk { s, c, nav, op, color } => {
            let ms = &mut mm.screens[scr(s)];
            let c = code_of(ms, *c)?;
            let (steps, i) = navigate(code_m(ms, &c), nav);
            let b = pick_a(list_a(code_a(p.screens.get_mut(scr(s))?, ms, &c)?, &steps)?, i)?;
            b.op_code = op.clone();
            b.color = to_col(*color);
        }
        Edit::AddVar { s, name, typ, list } => {
            let s = p.screens.get_mut(scr(s))?;
            if *list {
                s.list_variables.insert(name.clone(), list_out(name, *typ));
            } else {
                s.variables.insert(name.clone(), var_out(name, *typ));
            }
        }
        Edit::DelVar { s, i, list } => {
            let ms = &m.screens[scr(s)];
            let s = p.screens.get_mut(scr(s))?;
            if *list {
                s.list_variables.remove(&ms.lists[*i % ms.lists.len()].0)?;
            } else {
                s.variables.remove(&ms.vars[*i % ms.vars.len()].0)?;
            }
        }
        Edit::AddComp { s, id, typ, p: x } => {
            p.screens.get_mut(scr(s))?.components.insert(id.clone(), comp_out(*typ, x));
        }
        Edit::DelComp { s, i } => {
            let v = &m.screens[scr(s)].comps;
            p.screens.get_mut(scr(s))?.components.remove(&v[*i % v.len()].0)?;
        }
        Edit::AddEvent { s, at, e, style } => {
            let n = m.screens[scr(s)].events.len();
            let s = p.screens.get_mut(scr(s))?;
            let i = event_at(s, *at % (n + 1));
            s.events.insert(i, event_out(e, *style));
        }
        Edit::DelEvent { s, i } => {
            let n = m.screens[scr(s)].events.len();
            let s = p.screens.get_mut(scr(s))?;
            let i = event_at(s, *i % n);
            if i >= s.events.len() {
                return None;
            }
            s.events.remove(i);
        }
        Edit::SwapEvents { s, i, j } => {
            let n = m.screens[scr(s)].events.len();
            let s = p.screens.get_mut(scr(s))?;
            let (i, j) = (event_at(s, *i % n), event_at(s, *j % n));
            if i.max(j) >= s.events.len() {
                return None;
            }
            s.events.swap(i, j);
        }
        Edit::OnCreate { s, code, style } => {
            let s = p.screens.get_mut(scr(s))?;
            let at = s.events.iter().position(is_on_create);
            match (code, at) {
                (None, Some(i)) => {
                    s.events.remove(i);
                }
                (Some(c), Some(i)) => s.events[i].code = code_out(c, *style),
                (Some(c), None) => {
                    s.events.push(swrs::api::screen::Event { name: "onCreate".into(), event_type: EventType::ActivityEvent, code: code_out(c, *style) })
                }
                (None, None) => {}
            }
        }
        Edit::AddMb { s, b, style } => {
            p.screens.get_mut(scr(s))?.more_blocks.insert(b.id.clone(), mb_out(b, *style));
        }
        Edit::DelMb { s, i } => {
            let v = &m.screens[scr(s)].mbs;
            p.screens.get_mut(scr(s))?.more_blocks.remove(&v[*i % v.len()].id)?;
        }
        Edit::MbSpec { s, i, spec } => {
            let v = &m.screens[scr(s)].mbs;
            p.screens.get_mut(scr(s))?.more_blocks.get_mut(&v[*i % v.len()].id)?.spec = content_out(spec, &[], 0);
        }
    }
    Some(())
}

/// applies an edit to the model, and to the project if there is one; Ok(false): does not apply
pub fn apply(e: &Edit, m: &mut Proj, p: Option<&mut SketchwareProject>) -> Result<bool, String> {
    let mut next = m.clone();
    if on_model(e, &mut next).is_none() || !ok(&next) {
        return Ok(false);
    }
    if let Some(p) = p {
        if on_api(e, m, p).is_none() {
            return Err(format!("edit {e:?}: its object cannot be found in the loaded project, or was refused"));
        }
    }
    *m = next;
    Ok(true)
}
