//! Between the reference model and the objects of swrs's high-level model.

use crate::model::*;
use serde_json::{json, Map, Value};
use swrs::api::block::{ArgValue, Argument, ArgumentBlockReturnType as Ret, Block, BlockCategory, BlockContent, BlockControl, BlockType, Blocks, ListItem, SpecItem};
use swrs::api::component::ComponentKind as CK;
use swrs::api::screen::{Event, EventType, MoreBlock, Screen};
use swrs::api::view::{SidesValue, View, ViewType};
use swrs::api::{library, Colors, CustomView, Libraries, Metadata, SketchwareProject};
use swrs::color::Color;
use swrs::parser::file::{KeyboardSetting, Orientation, Theme};
use swrs::parser::logic::list_variable::ListVariable;
use swrs::parser::logic::variable::{Variable, VariableType};
use swrs::parser::view::models::layout::gravity::Gravity;
use swrs::parser::view::models::layout::{Orientation as LO, Size};
use swrs::parser::view::models::{image::ImageScaleType as IST, text, AndroidView, SpinnerMode};
use swrs::LinkedHashMap;

pub fn col(c: Color) -> i32 {
    ((c.alpha() as u32) << 24 | (c.red() as u32) << 16 | (c.green() as u32) << 8 | c.blue() as u32) as i32
}

/// the colour by one of the ways there are to make one
pub fn to_col(v: i32) -> Color {
    let [a, r, g, b] = (v as u32).to_be_bytes();
    match (v as u32).wrapping_mul(0x9e37_79b9) >> 29 {
        0 if a == 255 => Color::from_rgb(r, g, b),
        1 if a == 255 => Color::parse_hex(&format!("{r:02x}{g:02X}{b:02x}")).unwrap_or_else(|_| Color::from(!v as u32)),
        2 => Color::parse_hex(&format!("{:08X}", v as u32)).unwrap_or_else(|_| Color::from(!v as u32)),
        0 | 1 | 3 => Color::from_argb(a, r, g, b),
        _ => Color::from(v as u32),
    }
}

const CATS: [BlockCategory; 9] = [
    BlockCategory::Variable,
    BlockCategory::List,
    BlockCategory::Control,
    BlockCategory::Operator,
    BlockCategory::Math,
    BlockCategory::File,
    BlockCategory::ViewFunc,
    BlockCategory::ComponentFunc,
    BlockCategory::MoreBlock,
];

/// the category whose colour this is (Sketchware tells categories by their colours)
fn category(c: i32) -> Option<BlockCategory> {
    CATEGORY.iter().position(|x| *x as i32 & 0xffffff == c & 0xffffff).map(|i| CATS[i])
}

/// seconds since 1970 of a date, and back
pub fn timestamp(d: &[u32; 6]) -> u64 {
    let (y, m) = (d[0] as i64 - if d[1] <= 2 { 1 } else { 0 }, d[1] as i64);
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d[2] as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    ((era * 146097 + doe - 719468) * 86400 + d[3] as i64 * 3600 + d[4] as i64 * 60 + d[5] as i64) as u64
}

pub fn date(ts: u64) -> [u32; 6] {
    let days = (ts as i64).div_euclid(86400) + 719468;
    let s = (ts as i64).rem_euclid(86400) as u32;
    let era = days.div_euclid(146097);
    let doe = days - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    [y as u32, m as u32, (doy - (153 * mp + 2) / 5 + 1) as u32, s / 3600, s / 60 % 60, s % 60]
}

// ---------------------------------------------------------------- blocks

pub fn block_in(b: &Block) -> Result<Blk, String> {
    let mut args = vec![];
    let mut toks: Vec<String> = vec![];
    for i in &b.content.items {
        match i {
            SpecItem::Text(t) => toks.push(t.clone()),
            SpecItem::Parameter(a) => {
                fn val<T: std::fmt::Debug + Clone + PartialEq>(v: &ArgValue<T>, lit: impl Fn(&T) -> String) -> Result<Arg, String> {
                    Ok(match v {
                        ArgValue::Value(v) => Arg::Lit(lit(v)),
                        ArgValue::Block(b) => Arg::Blk(Box::new(block_in(b)?)),
                        ArgValue::BlockPlaceholder { block_id } => return Err(format!("unresolved reference to block {block_id}")),
                        ArgValue::Empty => Arg::Lit(String::new()),
                    })
                }
                let (c, name) = match a {
                    Argument::String { name, value } => {
                        args.push(val(value, |s| s.clone())?);
                        ("%s", name.clone())
                    }
                    Argument::Number { name, value } => {
                        args.push(val(value, |f| format!("{f:?}"))?);
                        ("%d", name.clone())
                    }
                    Argument::Boolean { name, value } => {
                        args.push(val(value, |b| b.to_string())?);
                        ("%b", name.clone())
                    }
                    Argument::Menu { name, value } => {
                        args.push(val(value, |s| s.clone())?);
                        ("%m", Some(name.clone()))
                    }
                };
                toks.push(match name {
                    Some(n) => format!("{c}.{n}"),
                    None => c.to_string(),
                });
            }
        }
    }
    let (typ, tn) = match &b.block_type {
        BlockType::Regular => (" ", ""),
        BlockType::Argument(Ret::Boolean) => ("b", ""),
        BlockType::Argument(Ret::String) => ("s", ""),
        BlockType::Argument(Ret::Number) => ("d", ""),
        BlockType::Argument(Ret::View { type_name }) => ("v", type_name.as_str()),
        BlockType::Argument(Ret::Component { type_name }) => ("p", type_name.as_str()),
        BlockType::Argument(Ret::List { inner_type: ListItem::String }) => ("l", "List String"),
        BlockType::Argument(Ret::List { inner_type: ListItem::Number }) => ("l", "List Number"),
        BlockType::Control(BlockControl::OneNest) => ("c", ""),
        BlockType::Control(BlockControl::TwoNest) => ("e", ""),
        BlockType::Control(BlockControl::EndingBlock) => ("f", ""),
    };
    let sub = |s: &Option<Blocks>| s.as_ref().map_or(Ok(vec![]), code_in);
    if b.category().ok() != category(col(b.color)) {
        return Err(format!("a block of colour {} is said to be of category {:?}", b.color, b.category().ok()));
    }
    Ok(Blk {
        op: b.op_code.clone(),
        color: col(b.color),
        spec: toks.join(" "),
        typ: typ.into(),
        tn: tn.into(),
        args,
        s1: sub(&b.sub_stack1)?,
        s2: sub(&b.sub_stack2)?,
    })
}

pub fn code_in(b: &Blocks) -> Result<Vec<Blk>, String> {
    b.0.iter().map(block_in).collect()
}

/// The content of a block, made in one of the ways an application has: item by item, with the
/// builder, from the text with the arguments set afterwards, or from the text and parameters
pub fn content_out(spec: &str, args: &[Arg], style: u64) -> BlockContent {
    let direct = || items_out(spec, args, style);
    let literal = |a: &Arg| matches!(a, Arg::Lit(s) if !s.starts_with('@'));
    let blocks = |a: &Arg| literal(a) || matches!(a, Arg::Blk(b) if b.op != "true" && b.op != "false");
    let id = |i: usize| format!("@{}", 3 * i + 7);
    let place = |c: BlockContent| {
        c.apply_blocks(|id| match args.get((id as usize).wrapping_sub(7) / 3) {
            Some(Arg::Blk(b)) => Some(block_out(b, style)),
            _ => None,
        })
    };
    // the specification of a moreblock has no arguments
    let all = params(spec).len() == args.len();
    let made = match style >> 3 & 7 {
        0 => Ok(direct()
            .items
            .into_iter()
            .fold(BlockContent::builder(), |b, i| match i {
                SpecItem::Text(t) => b.text(t),
                SpecItem::Parameter(a) => b.arg(a),
            })
            .build()),
        1 => BlockContent::parse_wo_params(spec).map(|mut c| {
            let d = direct();
            for (a, x) in c.get_args_mut().into_iter().zip(d.get_args()) {
                *a = x.clone();
            }
            c
        }),
        2 if all && args.iter().all(literal) => BlockContent::parse_wo_params(spec).and_then(|c| c.apply_args(lits(args))),
        3 if all && args.iter().all(literal) => BlockContent::parse(spec.to_string(), lits(args)),
        4 if all && args.iter().all(blocks) => {
            let params = args.iter().enumerate().map(|(i, a)| match a {
                Arg::Lit(s) => s.clone(),
                Arg::Blk(_) => id(i),
            });
            BlockContent::parse(spec.to_string(), params.collect()).and_then(place)
        }
        5 => {
            let (mut empty, args) = direct().take_args();
            for (a, x) in empty.get_args_mut().into_iter().zip(args) {
                *a = x;
            }
            Ok(empty)
        }
        // some arguments are set one by one, the rest all at once
        6 if all && args.iter().all(blocks) => BlockContent::parse_wo_params(spec)
            .and_then(|mut c| {
                let lits: Vec<Arg> = args.iter().map(|a| if let Arg::Lit(_) = a { a.clone() } else { Arg::Lit(String::new()) }).collect();
                let d = items_out(spec, &lits, style);
                let mut rest = vec![];
                for (i, (a, x)) in c.get_args_mut().into_iter().zip(d.get_args()).enumerate() {
                    if (style >> 7 ^ i as u64) & 1 == 1 && literal(&args[i]) && !is_empty(x) {
                        *a = x.clone();
                    } else {
                        rest.push(match &args[i] {
                            Arg::Lit(s) => s.clone(),
                            Arg::Blk(_) => id(i),
                        });
                    }
                }
                c.apply_args(rest)
            })
            .and_then(place),
        _ => Ok(direct()),
    };
    made.unwrap_or_else(|e| panic!("`{spec}` with {args:?} is refused: {e}"))
}

fn is_empty(a: &Argument) -> bool {
    match a {
        Argument::String { value: ArgValue::Empty, .. } | Argument::Menu { value: ArgValue::Empty, .. } => true,
        Argument::Number { value: ArgValue::Empty, .. } => true,
        Argument::Boolean { value: ArgValue::Empty, .. } => true,
        _ => false,
    }
}

fn lits(args: &[Arg]) -> Vec<String> {
    args.iter().map(|a| if let Arg::Lit(s) = a { s.clone() } else { String::new() }).collect()
}

fn items_out(spec: &str, args: &[Arg], style: u64) -> BlockContent {
    let mut n = 0;
    let items = spec
        .split(' ')
        .map(|t| {
            if !t.starts_with('%') || t == "%" {
                return SpecItem::Text(t.to_string());
            }
            let name = t.get(3..).filter(|s| !s.is_empty()).map(|s| s.to_string());
            let a = args.get(n);
            n += 1;
            fn val<T: std::fmt::Debug + Clone + PartialEq>(a: Option<&Arg>, style: u64, f: impl Fn(&str) -> Option<T>) -> ArgValue<T> {
                match a {
                    None => ArgValue::Empty,
                    Some(Arg::Blk(b)) => ArgValue::Block(block_out(b, style)),
                    Some(Arg::Lit(s)) => match f(s) {
                        Some(v) => ArgValue::Value(v),
                        None => ArgValue::Empty,
                    },
                }
            }
            let text = |s: &str| if s.is_empty() && style & 1 == 1 { None } else { Some(s.to_string()) };
            SpecItem::Parameter(match t.as_bytes()[1] {
                b's' => Argument::String { name, value: val(a, style, text) },
                b'd' => Argument::Number { name, value: val(a, style, |s| s.parse().ok()) },
                b'b' => Argument::Boolean { name, value: val(a, style, |s| s.parse().ok()) },
                _ => Argument::Menu { name: name.unwrap_or_default(), value: val(a, style, text) },
            })
        })
        .collect();
    BlockContent { items }
}

pub fn block_out(b: &Blk, style: u64) -> Block {
    let t = match b.typ.as_str() {
        "b" => BlockType::Argument(Ret::Boolean),
        "s" => BlockType::Argument(Ret::String),
        "d" => BlockType::Argument(Ret::Number),
        "v" => BlockType::Argument(Ret::View { type_name: b.tn.clone() }),
        "p" => BlockType::Argument(Ret::Component { type_name: b.tn.clone() }),
        "l" => BlockType::Argument(Ret::List { inner_type: if b.tn == "List Number" { ListItem::Number } else { ListItem::String } }),
        "c" => BlockType::Control(BlockControl::OneNest),
        "e" => BlockType::Control(BlockControl::TwoNest),
        "f" => BlockType::Control(BlockControl::EndingBlock),
        _ => BlockType::Regular,
    };
    let sub = |s: &[Blk], has: bool| if !has || s.is_empty() && style & 2 == 0 { None } else { Some(code_out(s, style)) };
    let (s1, s2) = (sub(&b.s1, b.typ == "c" || b.typ == "e"), sub(&b.s2, b.typ == "e"));
    let (op, content) = (b.op.clone(), content_out(&b.spec, &b.args, style));
    let cat = if b.color as u32 >> 24 == 255 && style >> 6 & 1 == 1 { category(b.color) } else { None };
    match (cat, s1, s2) {
        (Some(cat), Some(s1), Some(s2)) if b.typ == "e" => Block::new_2substack(cat, op, content, s1, s2),
        (Some(cat), Some(s1), None) if b.typ == "c" => Block::new_1substack(cat, op, content, s1),
        (Some(cat), None, None) => Block::new(cat, op, content, t),
        (_, s1, s2) => Block { sub_stack1: s1, sub_stack2: s2, color: to_col(b.color), op_code: op, content, block_type: t },
    }
}

pub fn code_out(c: &[Blk], style: u64) -> Blocks {
    Blocks(c.iter().map(|b| block_out(b, style)).collect())
}

// ---------------------------------------------------------------- views

fn size(s: Size) -> i64 {
    match s {
        Size::MatchParent => -2,
        Size::WrapContent => -1,
        Size::Fixed(n) => n as i64,
    }
}

pub fn to_size(n: i64) -> Size {
    match n {
        -2 => Size::MatchParent,
        -1 => Size::WrapContent,
        n => Size::Fixed(n as i32),
    }
}

fn tt(t: text::TextType) -> i64 {
    match t {
        text::TextType::Normal => 0,
        text::TextType::Bold => 1,
        text::TextType::Italic => 2,
        text::TextType::BoldItalic => 3,
    }
}

const IST_ALL: [IST; 7] = [IST::Center, IST::FitXy, IST::FitStart, IST::FitCenter, IST::FitEnd, IST::CenterCrop, IST::CenterInside];
const INPUT_ALL: [(text::InputType, i64); 6] = [
    (text::InputType::NumberDecimal, 8194),
    (text::InputType::NumberSigned, 4098),
    (text::InputType::NumberSignedDecimal, 12290),
    (text::InputType::Password, 129),
    (text::InputType::Phone, 3),
    (text::InputType::Text, 1),
];
const IME_ALL: [text::ImeOption; 7] = [
    text::ImeOption::Normal,
    text::ImeOption::None,
    text::ImeOption::Go,
    text::ImeOption::Search,
    text::ImeOption::Send,
    text::ImeOption::Next,
    text::ImeOption::Done,
];

fn lo(o: LO) -> i64 {
    match o {
        LO::Vertical => 1,
        LO::Unspecified => 0,
        LO::Horizontal => -1,
    }
}

fn b01(b: bool) -> Value {
    json!(if b { 1 } else { 0 })
}

/// the type id and the attributes a typed view shows
fn shown(v: &ViewType) -> (u8, Vec<(&'static str, Value)>) {
    let c = |c: &Color| json!(col(*c));
    match v {
        ViewType::LinearLayout { orientation, gravity } => (0, vec![("layout.orientation", json!(lo(*orientation))), ("layout.gravity", json!(gravity.0))]),
        ViewType::ScrollView { orientation, gravity } => (if *orientation == LO::Horizontal { 2 } else { 12 }, vec![("layout.gravity", json!(gravity.0))]),
        ViewType::Button { text, text_color, text_size, text_style } => {
            (3, vec![("text.text", json!(text)), ("text.textColor", c(text_color)), ("text.textSize", json!(text_size)), ("text.textType", json!(tt(*text_style)))])
        }
        ViewType::TextView { text, text_color, text_size, single_line, text_font, text_style, lines } => (
            4,
            vec![
                ("text.text", json!(text)),
                ("text.textColor", c(text_color)),
                ("text.textSize", json!(text_size)),
                ("text.textType", json!(tt(*text_style))),
                ("text.singleLine", b01(*single_line)),
                ("text.textFont", json!(text_font)),
                ("text.line", json!(lines)),
            ],
        ),
        ViewType::EditText { text, text_color, text_size, single_line, text_font, text_style, lines, hint, hint_color, ime_option, input_type } => (
            5,
            vec![
                ("text.text", json!(text)),
                ("text.textColor", c(text_color)),
                ("text.textSize", json!(text_size)),
                ("text.textType", json!(tt(*text_style))),
                ("text.singleLine", b01(*single_line)),
                ("text.textFont", json!(text_font)),
                ("text.line", json!(lines)),
                ("text.hint", json!(hint)),
                ("text.hintColor", c(hint_color)),
                ("text.imeOption", json!(IME_ALL.iter().position(|x| x == ime_option))),
                ("text.inputType", json!(INPUT_ALL.iter().find(|x| x.0 == *input_type).map(|x| x.1))),
            ],
        ),
        ViewType::ImageView { image_res_name, image_scale_type } => (
            6,
            vec![("image.resName", json!(image_res_name)), ("image.scaleType", json!(IST_ALL.iter().position(|x| x == image_scale_type).map(|i| SCALES[i])))],
        ),
        ViewType::WebView => (7, vec![]),
        ViewType::ProgressBar { max_progress, progress, indeterminate, progress_style } => (
            8,
            vec![
                ("max", json!(max_progress)),
                ("progress", json!(progress)),
                ("indeterminate", json!(if *indeterminate { "true" } else { "false" })),
                ("progressStyle", json!(progress_style)),
            ],
        ),
        ViewType::ListView { divider_height, custom_view } => (9, vec![("dividerHeight", json!(divider_height)), ("customView", json!(custom_view))]),
        ViewType::Spinner { spinner_mode } => (10, vec![("spinnerMode", json!(if *spinner_mode == SpinnerMode::Dropdown { 1 } else { 0 }))]),
        ViewType::CheckBox { checked, text, text_color, text_size, text_font, text_style } | ViewType::Switch { checked, text, text_color, text_size, text_font, text_style } => (
            if matches!(v, ViewType::CheckBox { .. }) { 11 } else { 13 },
            vec![
                ("checked", b01(*checked)),
                ("text.text", json!(text)),
                ("text.textColor", c(text_color)),
                ("text.textSize", json!(text_size)),
                ("text.textType", json!(tt(*text_style))),
                ("text.textFont", json!(text_font)),
            ],
        ),
        ViewType::SeekBar { max_progress, progress } => (14, vec![("max", json!(max_progress)), ("progress", json!(progress))]),
        ViewType::CalendarView { first_day_of_week } => (15, vec![("firstDayOfWeek", json!(first_day_of_week))]),
        ViewType::Fab { image_res_name } => (16, vec![("image.resName", json!(image_res_name))]),
        ViewType::AdView { adview_size } => (17, vec![("adSize", json!(adview_size))]),
        ViewType::MapView => (18, vec![]),
    }
}

/// a typed view of the given type with these attributes
pub fn view_type(typ: u8, a: &Map<String, Value>) -> Option<ViewType> {
    let s = |p: &str| get_path(a, p).and_then(|v| v.as_str()).unwrap_or("").to_string();
    let i = |p: &str| get_path(a, p).and_then(|v| v.as_i64()).unwrap_or(0);
    let c = |p: &str| to_col(i(p) as i32);
    let style = [text::TextType::Normal, text::TextType::Bold, text::TextType::Italic, text::TextType::BoldItalic][i("text.textType") as usize];
    let g = Gravity(i("layout.gravity") as u8);
    Some(match typ {
        0 => ViewType::LinearLayout {
            orientation: match i("layout.orientation") {
                1 => LO::Vertical,
                0 => LO::Unspecified,
                _ => LO::Horizontal,
            },
            gravity: g,
        },
        2 => ViewType::ScrollView { orientation: LO::Horizontal, gravity: g },
        12 => ViewType::ScrollView { orientation: LO::Vertical, gravity: g },
        3 => ViewType::Button { text: s("text.text"), text_color: c("text.textColor"), text_size: i("text.textSize") as u32, text_style: style },
        4 => ViewType::TextView {
            text: s("text.text"),
            text_color: c("text.textColor"),
            text_size: i("text.textSize") as u32,
            single_line: i("text.singleLine") != 0,
            text_font: s("text.textFont"),
            text_style: style,
            lines: i("text.line") as u32,
        },
        5 => ViewType::EditText {
            text: s("text.text"),
            text_color: c("text.textColor"),
            text_size: i("text.textSize") as u32,
            single_line: i("text.singleLine") != 0,
            text_font: s("text.textFont"),
            text_style: style,
            lines: i("text.line") as u32,
            hint: s("text.hint"),
            hint_color: c("text.hintColor"),
            ime_option: IME_ALL[i("text.imeOption") as usize],
            input_type: INPUT_ALL.iter().find(|x| x.1 == i("text.inputType")).unwrap_or(&INPUT_ALL[5]).0,
        },
        6 => ViewType::ImageView {
            image_res_name: s("image.resName"),
            image_scale_type: IST_ALL[SCALES.iter().position(|x| *x == s("image.scaleType")).unwrap_or(0)],
        },
        7 => ViewType::WebView,
        8 => ViewType::ProgressBar {
            max_progress: i("max") as u32,
            progress: i("progress") as u32,
            indeterminate: s("indeterminate") == "true",
            progress_style: s("progressStyle"),
        },
        9 => ViewType::ListView { divider_height: i("dividerHeight") as u32, custom_view: s("customView") },
        10 => ViewType::Spinner { spinner_mode: if i("spinnerMode") == 1 { SpinnerMode::Dropdown } else { SpinnerMode::Dialog } },
        11 => ViewType::CheckBox {
            checked: i("checked") != 0,
            text: s("text.text"),
            text_color: c("text.textColor"),
            text_size: i("text.textSize") as u32,
            text_font: s("text.textFont"),
            text_style: style,
        },
        13 => ViewType::Switch {
            checked: i("checked") != 0,
            text: s("text.text"),
            text_color: c("text.textColor"),
            text_size: i("text.textSize") as u32,
            text_font: s("text.textFont"),
            text_style: style,
        },
        14 => ViewType::SeekBar { max_progress: i("max") as u32, progress: i("progress") as u32 },
        15 => ViewType::CalendarView { first_day_of_week: i("firstDayOfWeek") as u8 },
        16 => ViewType::Fab { image_res_name: s("image.resName") },
        17 => ViewType::AdView { adview_size: s("adSize") },
        18 => ViewType::MapView,
        _ => return None,
    })
}

pub fn view_in(v: &View) -> Result<Vw, String> {
    let j = serde_json::to_value(&v.raw).map_err(|e| e.to_string())?;
    let mut a = j.as_object().ok_or("raw view")?.clone();
    for k in ["id", "type", "parent", "parentType"] {
        a.remove(k);
    }
    let mut typ = v.raw.r#type;
    if let Ok(t) = &v.view {
        let (n, s) = shown(t);
        typ = n;
        for (p, x) in s {
            set_path(&mut a, p, x);
        }
    }
    let sides = |s: &SidesValue| [("Top", s.top), ("Right", s.right), ("Bottom", s.bottom), ("Left", s.left)];
    for (n, x) in sides(&v.padding) {
        set_path(&mut a, &format!("layout.padding{n}"), json!(x));
    }
    for (n, x) in sides(&v.margin) {
        set_path(&mut a, &format!("layout.margin{n}"), json!(x));
    }
    set_path(&mut a, "layout.backgroundColor", json!(col(v.background_color)));
    set_path(&mut a, "layout.height", json!(size(v.height)));
    set_path(&mut a, "layout.width", json!(size(v.width)));
    set_path(&mut a, "layout.weight", json!(v.weight));
    set_path(&mut a, "layout.weightSum", json!(v.weight_sum));
    set_path(&mut a, "layout.layoutGravity", json!(v.layout_gravity.0));
    Ok(Vw { id: v.id.clone(), typ, attrs: a, children: v.children.iter().map(view_in).collect::<Result<_, _>>()? })
}

/// a new view, the way a program would make one: from a raw view
pub fn view_out(v: &Vw) -> Result<View, String> {
    let mut j = v.attrs.clone();
    j.insert("id".into(), json!(v.id));
    j.insert("type".into(), json!(v.typ));
    j.insert("parent".into(), json!("root"));
    j.insert("parentType".into(), json!(0));
    let raw: AndroidView = serde_json::from_value(j.into()).map_err(|e| format!("view {}: {e}", v.id))?;
    let mut o = View::from(if v.id.len() % 2 == 1 {
        let r = AndroidView::new_empty(&v.id, raw.r#type, "root", 0);
        AndroidView { id: r.id, r#type: r.r#type, parent: r.parent, parent_type: r.parent_type, ..raw }
    } else {
        raw
    });
    o.children = v.children.iter().map(view_out).collect::<Result<_, _>>()?;
    Ok(o)
}

/// sets one attribute through the place where the high-level model shows it
pub fn set_attr(v: &mut View, path: &str, x: &Value) {
    let i = x.as_i64().unwrap_or(0);
    let u = i as u32;
    match path {
        "layout.backgroundColor" => v.background_color = to_col(i as i32),
        "layout.height" => v.height = to_size(i),
        "layout.width" => v.width = to_size(i),
        "layout.paddingTop" => v.padding.top = u,
        "layout.paddingRight" => v.padding.right = u,
        "layout.paddingBottom" => v.padding.bottom = u,
        "layout.paddingLeft" => v.padding.left = u,
        "layout.marginTop" => v.margin.top = u,
        "layout.marginRight" => v.margin.right = u,
        "layout.marginBottom" => v.margin.bottom = u,
        "layout.marginLeft" => v.margin.left = u,
        "layout.weight" => v.weight = u,
        "layout.weightSum" => v.weight_sum = u,
        "layout.layoutGravity" => v.layout_gravity = Gravity(i as u8),
        _ => {
            if let Ok(t) = &v.view {
                let (typ, mut s) = shown(t);
                if let Some(e) = s.iter_mut().find(|e| e.0 == path) {
                    e.1 = x.clone();
                    let mut m = default_attrs();
                    for (p, x) in s {
                        set_path(&mut m, p, x);
                    }
                    if let Some(t) = view_type(typ, &m) {
                        v.view = Ok(t);
                    }
                    return;
                }
            }
            // not shown: a program would have to change the raw view
            if let Ok(j) = serde_json::to_value(&v.raw) {
                let mut m = j.as_object().cloned().unwrap_or_default();
                set_path(&mut m, path, x.clone());
                if let Ok(r) = serde_json::from_value(m.into()) {
                    v.raw = r;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- the rest

pub fn comp_in(c: &CK) -> (u8, String) {
    match c {
        CK::Intent => (1, "".into()),
        CK::SharedPreferences { path } => (2, path.clone()),
        CK::Calendar => (3, "".into()),
        CK::Vibrator => (4, "".into()),
        CK::Timer => (5, "".into()),
        CK::FirebaseDatabase { path } => (6, path.clone()),
        CK::Dialog => (7, "".into()),
        CK::MediaPlayer => (8, "".into()),
        CK::SoundPool => (9, "".into()),
        CK::ObjectAnimator => (10, "".into()),
        CK::Gyroscope => (11, "".into()),
        CK::FirebaseAuth => (12, "".into()),
        CK::InterstitialAd => (13, "".into()),
        CK::FirebaseStorage { path } => (14, path.clone()),
        CK::Camera => (15, "".into()),
        CK::FilePicker { mime_type } => (16, mime_type.clone()),
        CK::RequestNetwork => (17, "".into()),
        CK::TextToSpeech => (18, "".into()),
        CK::SpeechToText => (19, "".into()),
        CK::BluetoothConnect => (20, "".into()),
        CK::LocationManager => (21, "".into()),
    }
}

pub fn comp_out(t: u8, p: &str) -> CK {
    let p = p.to_string();
    match t {
        2 => CK::SharedPreferences { path: p },
        3 => CK::Calendar,
        4 => CK::Vibrator,
        5 => CK::Timer,
        6 => CK::FirebaseDatabase { path: p },
        7 => CK::Dialog,
        8 => CK::MediaPlayer,
        9 => CK::SoundPool,
        10 => CK::ObjectAnimator,
        11 => CK::Gyroscope,
        12 => CK::FirebaseAuth,
        13 => CK::InterstitialAd,
        14 => CK::FirebaseStorage { path: p },
        15 => CK::Camera,
        16 => CK::FilePicker { mime_type: p },
        17 => CK::RequestNetwork,
        18 => CK::TextToSpeech,
        19 => CK::SpeechToText,
        20 => CK::BluetoothConnect,
        21 => CK::LocationManager,
        _ => CK::Intent,
    }
}

pub fn vt_in(t: &VariableType) -> u8 {
    match t {
        VariableType::Boolean => 0,
        VariableType::Integer => 1,
        VariableType::String => 2,
        VariableType::HashMap => 3,
    }
}

pub fn vt_out(t: u8) -> VariableType {
    match t {
        0 => VariableType::Boolean,
        1 => VariableType::Integer,
        2 => VariableType::String,
        _ => VariableType::HashMap,
    }
}

pub fn var_out(n: &str, t: u8) -> Variable {
    Variable { name: n.into(), r#type: vt_out(t) }
}

pub fn list_out(n: &str, t: u8) -> ListVariable {
    ListVariable { name: n.into(), r#type: vt_out(t) }
}

pub fn event_out(e: &Ev, style: u64) -> Event {
    Event {
        name: e.name.clone(),
        event_type: match &e.kind {
            Kind::View => EventType::ViewEvent { id: e.target.clone() },
            Kind::Comp(t) => EventType::ComponentEvent { id: e.target.clone(), component_type: *t },
            Kind::Act => EventType::ActivityEvent,
        },
        code: code_out(&e.code, style),
    }
}

pub fn mb_out(b: &Mb, style: u64) -> MoreBlock {
    MoreBlock { name: b.id.clone(), spec: content_out(&b.spec, &[], style), code: code_out(&b.code, style) }
}

pub fn kb_out(k: u8) -> KeyboardSetting {
    [KeyboardSetting::Unspecified, KeyboardSetting::Visible, KeyboardSetting::Hidden][k as usize]
}

pub fn or_out(o: u8) -> Orientation {
    [Orientation::Portrait, Orientation::Landscape, Orientation::Both][o as usize]
}

pub fn th_out(t: i8) -> Theme {
    [Theme::None, Theme::Default, Theme::Actionbar, Theme::Fullscreen][(t + 1) as usize]
}

pub fn screen_out(s: &Scr, style: u64) -> Result<Screen, String> {
    let mut events: Vec<Event> = s.events.iter().map(|e| event_out(e, style)).collect();
    if let Some(c) = &s.on_create {
        let e = Event { name: "onCreate".into(), event_type: EventType::ActivityEvent, code: code_out(c, style) };
        // where it stands does not matter
        let at = style as usize / 8 % (events.len() + 1);
        events.insert(at, e);
    }
    Ok(Screen {
        layout_name: s.name.clone(),
        java_name: java_name(&s.name),
        layout: s.views.iter().map(view_out).collect::<Result<_, _>>()?,
        variables: s.vars.iter().map(|v| (v.0.clone(), var_out(&v.0, v.1))).collect(),
        list_variables: s.lists.iter().map(|v| (v.0.clone(), list_out(&v.0, v.1))).collect(),
        more_blocks: s.mbs.iter().map(|b| (b.id.clone(), mb_out(b, style))).collect(),
        components: s.comps.iter().map(|c| (c.0.clone(), comp_out(c.1, &c.2))).collect(),
        events,
        fab: s.fab.as_ref().map(view_out).transpose()?,
        fullscreen_enabled: s.opts & 2 != 0,
        toolbar_enabled: s.opts & 1 != 0,
        drawer_enabled: s.opts & 4 != 0,
        fab_enabled: s.opts & 8 != 0,
        orientation: or_out(s.orientation),
        theme: th_out(s.theme),
        keyboard_setting: kb_out(s.keyboard),
    })
}

pub fn custom_out(c: &Cst) -> Result<CustomView, String> {
    Ok(CustomView { res_name: c.name.clone(), layout: c.views.iter().map(view_out).collect::<Result<_, _>>()? })
}

pub fn libs_out(l: &Libs) -> Libraries {
    Libraries {
        app_compat_enabled: l.compat,
        firebase: l.firebase.as_ref().map(|f| library::Firebase {
            project_id: f[0].clone(),
            app_id: f[1].clone(),
            api_key: f[2].clone(),
            storage_bucket: f[3].clone(),
        }),
        ad_mob: l.admob.as_ref().map(|(u, d)| library::AdMob {
            ad_units: u.iter().map(|(i, n)| swrs::parser::library::AdUnit { id: i.clone(), name: n.clone() }).collect(),
            test_devices: d.clone(),
        }),
        google_map: l.map.as_ref().map(|k| library::GoogleMap { api_key: k.clone() }),
    }
}

pub fn meta_out(m: &Meta) -> Metadata {
    Metadata {
        local_id: m.id,
        name: m.name.clone(),
        workspace_name: m.ws.clone(),
        package_name: m.pkg.clone(),
        time_created: timestamp(&m.date),
        sketchware_version: m.sw,
        version_name: m.ver_name.clone(),
        version_code: m.ver_code,
    }
}

pub fn colors_out(c: &[i32; 5]) -> Colors {
    Colors {
        color_primary: to_col(c[0]),
        color_primary_dark: to_col(c[1]),
        color_accent: to_col(c[2]),
        color_control_normal: to_col(c[3]),
        color_control_highlight: to_col(c[4]),
    }
}

pub fn screen_in(s: &Screen) -> Result<Scr, String> {
    let mut events = vec![];
    let mut on_create = None;
    for e in &s.events {
        let code = code_in(&e.code).map_err(|x| format!("event {}: {x}", e.name))?;
        if e.name == "onCreate" && e.event_type == EventType::ActivityEvent {
            if on_create.replace(code).is_some() {
                return Err("two onCreate events".into());
            }
            continue;
        }
        let (kind, target) = match &e.event_type {
            EventType::ViewEvent { id } => (Kind::View, id.clone()),
            EventType::ComponentEvent { id, component_type } => (Kind::Comp(*component_type), id.clone()),
            EventType::ActivityEvent => (Kind::Act, e.name.clone()),
        };
        events.push(Ev { name: e.name.clone(), kind, target, code });
    }
    let mut mbs = vec![];
    for (k, b) in &s.more_blocks {
        if *k != b.name {
            return Err(format!("moreblock {k} is called {}", b.name));
        }
        let probe = Block {
            sub_stack1: None,
            sub_stack2: None,
            color: to_col(0),
            op_code: "".into(),
            content: b.spec.clone(),
            block_type: BlockType::Regular,
        };
        mbs.push(Mb { id: k.clone(), spec: block_in(&probe)?.spec, code: code_in(&b.code).map_err(|x| format!("moreblock {k}: {x}"))? });
    }
    if s.java_name != java_name(&s.layout_name) {
        return Err(format!("the class of {} is {}", s.layout_name, s.java_name));
    }
    let mut vars = vec![];
    for (k, v) in &s.variables {
        if *k != v.name {
            return Err(format!("variable {k} is called {}", v.name));
        }
        vars.push((k.clone(), vt_in(&v.r#type)));
    }
    let mut lists = vec![];
    for (k, v) in &s.list_variables {
        if *k != v.name {
            return Err(format!("list {k} is called {}", v.name));
        }
        lists.push((k.clone(), vt_in(&v.r#type)));
    }
    Ok(Scr {
        name: s.layout_name.clone(),
        opts: s.toolbar_enabled as u8 | (s.fullscreen_enabled as u8) << 1 | (s.drawer_enabled as u8) << 2 | (s.fab_enabled as u8) << 3,
        orientation: match s.orientation {
            Orientation::Portrait => 0,
            Orientation::Landscape => 1,
            Orientation::Both => 2,
        },
        theme: match s.theme {
            Theme::None => -1,
            Theme::Default => 0,
            Theme::Actionbar => 1,
            Theme::Fullscreen => 2,
        },
        keyboard: match s.keyboard_setting {
            KeyboardSetting::Unspecified => 0,
            KeyboardSetting::Visible => 1,
            KeyboardSetting::Hidden => 2,
        },
        views: s.layout.iter().map(view_in).collect::<Result<_, _>>()?,
        fab: s.fab.as_ref().map(view_in).transpose()?,
        vars,
        lists,
        comps: s
            .components
            .iter()
            .map(|(k, c)| {
                let (t, p) = comp_in(c);
                (k.clone(), t, p)
            })
            .collect(),
        events,
        on_create,
        mbs,
    })
}

pub fn proj_in(p: &SketchwareProject) -> Result<Proj, String> {
    let m = &p.metadata;
    let c = &p.colors;
    let res = |r: &LinkedHashMap<swrs::api::ResourceId, swrs::parser::ResourceFileWrapper>| r.iter().map(|(k, f)| (k.0.clone(), f.get_full_name())).collect();
    Ok(Proj {
        meta: Meta {
            id: m.local_id,
            name: m.name.clone(),
            ws: m.workspace_name.clone(),
            pkg: m.package_name.clone(),
            ver_name: m.version_name.clone(),
            ver_code: m.version_code,
            date: date(m.time_created),
            sw: m.sketchware_version,
        },
        colors: [col(c.color_primary), col(c.color_primary_dark), col(c.color_accent), col(c.color_control_normal), col(c.color_control_highlight)],
        icon: p.custom_icon.is_some(),
        screens: p.screens.iter().map(|s| screen_in(s).map_err(|e| format!("screen {}: {e}", s.layout_name))).collect::<Result<_, _>>()?,
        customs: p
            .custom_views
            .iter()
            .map(|c| Ok::<_, String>(Cst { name: c.res_name.clone(), views: c.layout.iter().map(view_in).collect::<Result<_, _>>()? }))
            .collect::<Result<_, _>>()?,
        libs: Libs {
            compat: p.libraries.app_compat_enabled,
            firebase: p.libraries.firebase.as_ref().map(|f| [f.project_id.clone(), f.app_id.clone(), f.api_key.clone(), f.storage_bucket.clone()]),
            admob: p.libraries.ad_mob.as_ref().map(|a| (a.ad_units.iter().map(|u| (u.id.clone(), u.name.clone())).collect(), a.test_devices.clone())),
            map: p.libraries.google_map.as_ref().map(|g| g.api_key.clone()),
        },
        res: [res(p.resources.get_images()), res(p.resources.get_sounds()), res(p.resources.get_fonts())],
    })
}
