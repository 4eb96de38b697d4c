//! C11 typed round trips, C16 failing serialization, and the typed part of C10.

use crate::api;
use crate::engine::*;
use crate::generate::*;
use crate::refmodel::{self, untie};
use crate::runner::Prop;
use crate::typed::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use toon::Options;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "round-trip: a case is a random schema over the serde data model (structs, options, tuples, newtypes, sequences, maps with string, integer, bool, char and unit-variant keys, all integer widths, floats, chars, bytes, enums of all variant kinds) and a value of it; the text must be the canonical text of its JSON equivalent and decode back to an equal value. mismatch: the document is decoded into a schema that differs in one place, and compared with what serde_json makes of the same data. derived: derived Rust types (also tagged, untagged, flattened, renamed, defaulted). Non-trivial: the schema has more than one node. Distinct by schema and value.",
            subs: vec![
                Sub { name: "round-trip", f: c11_round, quick: 200_000, thorough: 5_000_000, max_size: 80 },
                Sub { name: "mismatch", f: c11_mismatch, quick: 250_000, thorough: 6_000_000, max_size: 70 },
                Sub { name: "derived", f: c11_derived, quick: 100_000, thorough: 3_000_000, max_size: 70 },
            ],
            known: vec![],
        },
        Prop {
            id: "C16",
            rule: "failing: a typed value with one node replaced by one whose Serialize reports an error (at once, or after some elements). unrepresentable: one node replaced by an integer outside 64 bits or a map with a compound key. Every encode entry point must return an error. Non-trivial: the bad node lies inside a container. Distinct by value and options.",
            subs: vec![
                Sub { name: "failing", f: c16_failing, quick: 250_000, thorough: 6_000_000, max_size: 70 },
                Sub { name: "unrepresentable", f: c16_unrepresentable, quick: 250_000, thorough: 6_000_000, max_size: 70 },
            ],
            known: vec![],
        },
    ]
}

pub fn typed_value(s: &mut Src, any_float: bool) -> (Ty, Tv) {
    let mut g = Gen { budget: 4 + s.size as usize / 4, any_float };
    let t = ty(s, &mut g);
    g.budget = 20 + s.size as usize;
    let v = value_of(s, &mut g, &t);
    serialize_style(s.chance(1, 4), s.chance(1, 4), s.chance(1, 4));
    (t, v)
}

/// A typed value with a map whose keys are floats, options or units, and the same one with the keys
/// these stand for as strings: the canonical number, the inner key, null.
pub fn odd_keys(s: &mut Src) -> (Tv, Tv) {
    fn key(s: &mut Src) -> (Tv, String) {
        match s.below(7) {
            0 => {
                let f = any_f64(s);
                let f = if refmodel::is_tie(f) { 2.5 } else { f };
                (Tv::F64(f), refmodel::float_text(f))
            }
            1 => {
                let f = *s.pick(&[0.0f32, -0.0, 1.5, 0.1, 3.0e10, -2.5e-7, f32::INFINITY, f32::NAN, 16777216.0]);
                (Tv::F32(f), refmodel::float_text(f as f64))
            }
            2 => (Tv::None, "null".into()),
            3 => {
                let (k, t) = key(s);
                (Tv::Some(Box::new(k)), t)
            }
            4 => (s.pick(&[Tv::Unit, Tv::UnitStruct]).clone(), "null".into()),
            5 => {
                let (k, t) = key(s);
                (Tv::Newtype(Box::new(k)), t)
            }
            _ => {
                let b = s.chance(1, 2);
                (Tv::Bool(b), b.to_string())
            }
        }
    }
    let mut odd: Vec<(Tv, Tv)> = Vec::new();
    let mut plain: Vec<(Tv, Tv)> = Vec::new();
    for _ in 0..1 + s.count(4) {
        let (k, t) = key(s);
        let t = Tv::Str(t);
        let v = if s.chance(1, 4) { typed_value(s, true).1 } else { Tv::Int(Width::U8, s.below(9) as i128) };
        if !plain.iter().any(|(o, _)| *o == t) {
            odd.push((k, v.clone()));
            plain.push((t, v));
        }
    }
    let (mut a, mut b) = (Tv::Map(odd), Tv::Map(plain));
    for _ in 0..s.below(3) {
        let put: fn(Tv, bool) -> Tv = match s.below(6) {
            0 => |v, _| Tv::Seq(vec![v]),
            1 => |v, _| Tv::Seq(vec![v.clone(), v]),
            2 => |v, _| Tv::Tuple(vec![v, Tv::Unit]),
            3 => |v, _| Tv::Struct(&["a", "b"], vec![v, Tv::Bool(true)], false),
            4 => |v, _| Tv::Variant(0, "A", Box::new(VarTv::Newtype(v))),
            _ => |v, odd| Tv::Map(vec![(if odd { Tv::F64(2.5) } else { Tv::Str("2.5".into()) }, v)]),
        };
        (a, b) = (put(a, true), put(b, false));
    }
    (a, b)
}

/// The text must be that of the JSON equivalent: the reference encoder's, except where the quoting
/// rule leaves a choice, then the library's own text of the JSON value.
pub fn same_text(v: &dyn std::fmt::Debug, json: &Value, text: &str, o: &Options) -> Result<(), String> {
    let want = if refmodel::has_open_quoting(json) { api::encode(json, o)? } else { refmodel::encode_opts(json, o) };
    if text != want {
        return Err(format!("the text is not that of the JSON equivalent\nvalue {v:?}\nwant {want:?}\ngot  {text:?}"));
    }
    Ok(())
}

fn c11_round(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let (t, v) = typed_value(s, false);
    c.repr = format!("{} {t:?} {v:?}", opts_text(&o));
    c.nontrivial = count_ty(&t) > 1;
    let json = serde_json::to_value(&v).map_err(|e| format!("harness: serde_json cannot represent {v:?}: {e}"))?;
    let text = api::encode(&v, &o).map_err(|e| format!("encoding fails: {e}\n{v:?}"))?;
    same_text(&v, &json, &text, &o)?;
    for strict in [true, false] {
        c.checks += 1;
        let o = api::with(&o, |o| o.strict = strict);
        match with_schema(&t, || api::decode_as::<Dyn>(&text, &o)) {
            Ok(Dyn(got)) if got == v => {}
            Ok(Dyn(got)) => return Err(format!("decoding into the same type gives another value (strict={strict})\nwant {v:?}\ngot  {got:?}\n{text}")),
            Err(e) => return Err(format!("decoding into the same type fails (strict={strict}): {e}\ntype {t:?}\nvalue {v:?}\n{text}")),
        }
    }
    Ok(())
}

/// A whole float is written without a fraction and reads as an integer.
fn as_read(v: &Value) -> Value {
    match v {
        Value::Number(n) if n.is_f64() => {
            let t = refmodel::num_text(n);
            if let Ok(i) = t.parse::<i64>() {
                i.into()
            } else if let Ok(u) = t.parse::<u64>() {
                u.into()
            } else {
                v.clone()
            }
        }
        Value::Array(a) => a.iter().map(as_read).collect::<Vec<_>>().into(),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), as_read(v))).collect()),
        _ => v.clone(),
    }
}
/// serde_json refuses it as a number key (".5"), or reads it imprecisely ("1e-23" as 1.0000000000000001e-23).
fn odd_float_key(k: &str) -> bool {
    k.parse::<f64>().is_ok_and(|x| serde_json::from_str::<f64>(k).ok() != Some(x) || k.parse::<f32>() != Ok(x as f32))
}
/// A key such as "05", "+5" or ".5", which serde_json refuses as a number key and Rust reads as one.
fn odd_int_key(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(odd_int_key),
        Value::Object(m) => m.iter().any(|(k, v)| k.parse::<i128>().is_ok_and(|i| i.to_string() != *k) || odd_float_key(k) || odd_int_key(v)),
        _ => false,
    }
}
fn c11_mismatch(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let (t, v) = typed_value(s, true);
    let mut g = Gen { budget: 5, any_float: true };
    let t2 = mutate_ty(s, &mut g, &t);
    let strict = !s.chance(1, 3);
    c.repr = format!("{} {t2:?} {v:?}", opts_text(&o));
    let json = serde_json::to_value(&v).map_err(|e| format!("harness: serde_json cannot represent {v:?}: {e}"))?;
    let json = as_read(&refmodel::denoted(&json));
    if odd_int_key(&json) {
        c.label("05 as a key");
        return Ok(());
    }
    let text = api::encode(&v, &o).map_err(|e| format!("encoding fails: {e}\n{v:?}"))?;
    c.nontrivial = t != t2;
    let o = api::with(&o, |o| o.strict = strict);
    let (want, got) = with_schema(&t2, || (serde_json::from_value::<Dyn>(json.clone()), api::decode_as::<Dyn>(&text, &o)));
    c.label(if want.is_ok() { "still fits" } else { "does not fit" });
    match (want, got) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Ok(_), Err(_)) => {
            c.label("refused where serde_json accepts");
            Ok(())
        }
        (Ok(a), Ok(b)) => Err(format!("decoding into another type gives a wrong value\ntype {t2:?}\nwant {a:?}\ngot  {b:?}\n{text}")),
        (Err(e), Ok(b)) => Err(format!("decoding into a type that does not fit succeeds\ntype {t2:?}\ndata {json}\nserde_json: {e}\ngot  {b:?}\n{text}")),
    }
}

// ---- derived types ----

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, PartialOrd, Ord, Eq, Hash)]
enum Color {
    Red,
    #[serde(rename = "dark-green")]
    Green,
    Blue,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Ext {
    Unit,
    New(i64),
    NewStr(String),
    Opt(Option<u8>),
    Pair(String, u64),
    Rec { a: Option<Box<Ext>>, b: Vec<u16> },
    List(Vec<Ext>),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "type")]
enum Internal {
    Empty,
    Point { x: f64, y: f64 },
    Named { name: String, tags: Vec<String> },
    Deep { inner: Box<Internal> },
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    Unit,
    One(String),
    Two(i32, i32),
    Rec { k: u8 },
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(untagged)]
enum Untagged {
    Num(i64),
    Float(f64),
    Text(String),
    Flag(bool),
    Many(Vec<Untagged>),
    Rec { left: Box<Untagged>, right: Box<Untagged> },
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Inner {
    id: u32,
    #[serde(rename = "display name")]
    name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    note: Option<String>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Flat {
    head: u8,
    #[serde(flatten)]
    inner: Inner,
    #[serde(flatten)]
    rest: BTreeMap<String, Value>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(rename_all = "camelCase", deny_unknown_fields)]
struct Outer {
    is_ok: bool,
    big_number: u64,
    small_number: i8,
    ratio: f32,
    letter: char,
    color: Color,
    by_color: BTreeMap<Color, u32>,
    by_id: BTreeMap<i32, String>,
    by_flag: BTreeMap<bool, Vec<u8>>,
    rows: Vec<Inner>,
    pair: (u8, String),
    array: [i16; 3],
    nested: Vec<Vec<i32>>,
    unit: (),
    set: BTreeSet<u16>,
    queue: VecDeque<Option<bool>>,
    boxed: Box<Option<Inner>>,
    result: Result<u8, String>,
    dynamic: Value,
    #[serde(default)]
    absent: Vec<String>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Wrap<T>(T);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(transparent)]
struct Clear<T> {
    it: T,
}

fn f(s: &mut Src) -> f64 {
    let x = any_f64(s);
    if !x.is_finite() || refmodel::is_tie(x) || x == 0.0 { 2.25 } else { x }
}
fn vecof<T>(s: &mut Src, mut g: impl FnMut(&mut Src) -> T) -> Vec<T> {
    let n = s.count(4);
    (0..n).map(|_| g(s)).collect()
}
fn color(s: &mut Src) -> Color {
    s.pick(&[Color::Red, Color::Green, Color::Blue]).clone()
}
fn ext(s: &mut Src, d: usize) -> Ext {
    match s.below(if d > 3 { 5 } else { 7 }) {
        0 => Ext::Unit,
        1 => Ext::New(any_i64(s)),
        2 => Ext::NewStr(any_string(s)),
        3 => Ext::Opt(if s.chance(1, 2) { None } else { Some(s.below(256) as u8) }),
        4 => Ext::Pair(any_string(s), s.u64()),
        5 => Ext::Rec { a: s.chance(1, 2).then(|| Box::new(ext(s, d + 1))), b: vecof(s, |s| s.below(65536) as u16) },
        _ => Ext::List(vecof(s, |s| ext(s, d + 1))),
    }
}
fn internal(s: &mut Src, d: usize) -> Internal {
    match s.below(if d > 3 { 3 } else { 4 }) {
        0 => Internal::Empty,
        1 => Internal::Point { x: f(s), y: f(s) },
        2 => Internal::Named { name: any_string(s), tags: vecof(s, any_string) },
        _ => Internal::Deep { inner: Box::new(internal(s, d + 1)) },
    }
}
fn adjacent(s: &mut Src) -> Adjacent {
    match s.below(4) {
        0 => Adjacent::Unit,
        1 => Adjacent::One(any_string(s)),
        2 => Adjacent::Two(any_i64(s) as i32, any_i64(s) as i32),
        _ => Adjacent::Rec { k: s.below(256) as u8 },
    }
}
fn untagged(s: &mut Src, d: usize) -> Untagged {
    match s.below(if d > 3 { 4 } else { 6 }) {
        0 => Untagged::Num(any_i64(s)),
        1 => {
            let x = f(s);
            // a whole float reads back as the integer it is
            if x.fract() == 0.0 { Untagged::Float(0.5) } else { Untagged::Float(x) }
        }
        2 => Untagged::Text(any_string(s)),
        3 => Untagged::Flag(s.chance(1, 2)),
        4 => Untagged::Many(vecof(s, |s| untagged(s, d + 1))),
        _ => Untagged::Rec { left: Box::new(untagged(s, d + 1)), right: Box::new(untagged(s, d + 1)) },
    }
}
fn inner(s: &mut Src) -> Inner {
    Inner { id: s.u64() as u32, name: any_string(s), note: s.chance(1, 3).then(|| any_string(s)) }
}
fn outer(s: &mut Src) -> Outer {
    Outer {
        is_ok: s.chance(1, 2),
        big_number: s.u64(),
        small_number: s.below(256) as u8 as i8,
        ratio: {
            let x = f(s) as f32;
            if x.is_finite() && !refmodel::is_tie(x as f64) && x != 0.0 { x } else { 0.25 }
        },
        letter: any_char(s),
        color: color(s),
        by_color: vecof(s, |s| (color(s), s.below(9) as u32)).into_iter().collect(),
        by_id: vecof(s, |s| (any_i64(s) as i32, any_string(s))).into_iter().collect(),
        by_flag: vecof(s, |s| (s.chance(1, 2), vecof(s, |s| s.below(256) as u8))).into_iter().collect(),
        rows: vecof(s, inner),
        pair: (s.below(256) as u8, any_string(s)),
        array: [any_i64(s) as i16, any_i64(s) as i16, 0],
        nested: vecof(s, |s| vecof(s, |s| any_i64(s) as i32)),
        unit: (),
        set: vecof(s, |s| s.below(65536) as u16).into_iter().collect(),
        queue: vecof(s, |s| s.chance(1, 2).then(|| s.chance(1, 2))).into(),
        boxed: Box::new(s.chance(1, 2).then(|| inner(s))),
        result: if s.chance(1, 2) { Ok(s.below(256) as u8) } else { Err(any_string(s)) },
        dynamic: dynamic(s),
        absent: vecof(s, any_string),
    }
}
/// A dynamic value that comes back as it is (no -0, no rows in another key order).
fn dynamic(s: &mut Src) -> Value {
    as_read(&refmodel::denoted(&untie(value(s, Cfg { budget: 12, ..cfg(s) }))))
}
fn rt<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + 'static>(s: &mut Src, c: &mut Case, v: T) -> Result<(), String> {
    let o = options(s);
    c.repr = format!("{} {} {v:?}", opts_text(&o), std::any::type_name::<T>());
    c.nontrivial = true;
    let json = serde_json::to_value(&v).map_err(|e| format!("harness: {e}"))?;
    let text = api::encode(&v, &o).map_err(|e| format!("encoding fails: {e}\n{v:?}"))?;
    same_text(&v, &json, &text, &o)?;
    for strict in [true, false] {
        c.checks += 1;
        let o = api::with(&o, |o| o.strict = strict);
        match api::decode_as::<T>(&text, &o) {
            Ok(got) if got == v => {}
            Ok(got) => return Err(format!("decoding gives another value (strict={strict})\nwant {v:?}\ngot  {got:?}\n{text}")),
            Err(e) => return Err(format!("decoding fails (strict={strict}): {e}\n{v:?}\n{text}")),
        }
    }
    Ok(())
}
fn c11_derived(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let k = s.below(16);
    match k {
        0 => {
            let v = outer(s);
            rt(s, c, v)
        }
        1 => {
            let v = vecof(s, outer);
            rt(s, c, v)
        }
        2 => {
            let v = ext(s, 0);
            rt(s, c, v)
        }
        3 => {
            let v = vecof(s, |s| ext(s, 0));
            rt(s, c, v)
        }
        4 => {
            let v = vecof(s, |s| internal(s, 0));
            rt(s, c, v)
        }
        5 => {
            let v: BTreeMap<String, Adjacent> = vecof(s, |s| (any_key(s), adjacent(s))).into_iter().collect();
            rt(s, c, v)
        }
        6 => {
            let v = vecof(s, adjacent);
            rt(s, c, v)
        }
        7 => {
            let v = untagged(s, 0);
            rt(s, c, v)
        }
        8 => {
            let v = Flat {
                head: s.below(256) as u8,
                inner: inner(s),
                rest: vecof(s, |s| (any_key(s), dynamic(s))).into_iter().filter(|(k, _)| !["head", "id", "display name", "note"].contains(&k.as_str())).collect(),
            };
            rt(s, c, v)
        }
        9 => {
            let v = vecof(s, inner);
            rt(s, c, v)
        }
        10 => {
            let v = Wrap(vecof(s, |s| Wrap(Clear { it: inner(s) })));
            rt(s, c, v)
        }
        11 => {
            let v: HashMap<u64, (Color, Option<Vec<Ext>>)> = vecof(s, |s| (s.u64(), (color(s), s.chance(1, 2).then(|| vecof(s, |s| ext(s, 1)))))).into_iter().take(1).collect();
            rt(s, c, v)
        }
        12 => {
            let v: Option<Outer> = s.chance(3, 4).then(|| outer(s));
            rt(s, c, v)
        }
        13 => {
            let v = (color(s), s.u64(), any_string(s), ext(s, 0), internal(s, 1));
            rt(s, c, v)
        }
        14 => {
            let v: BTreeMap<char, BTreeMap<i8, BTreeMap<Color, f64>>> =
                vecof(s, |s| (any_char(s), vecof(s, |s| (s.below(256) as u8 as i8, vecof(s, |s| (color(s), f(s))).into_iter().collect())).into_iter().collect())).into_iter().collect();
            rt(s, c, v)
        }
        _ => {
            let v: (std::net::IpAddr, std::time::Duration, std::ops::Range<u8>, std::path::PathBuf, std::num::NonZeroU16) = (
                std::net::IpAddr::from([s.below(256) as u8, 1, 2, 3]),
                std::time::Duration::new(s.u64() >> 1, s.below(1_000_000_000) as u32),
                3..s.below(256) as u8,
                any_string(s).into(),
                std::num::NonZeroU16::new(1 + s.below(65535) as u16).unwrap(),
            );
            rt(s, c, v)
        }
    }
}

/// The text into every derived type, whatever comes of it.
pub fn decode_derived(t: &str, o: &Options) {
    let _ = api::decode_as::<Outer>(t, o);
    let _ = api::decode_as::<Vec<Outer>>(t, o);
    let _ = api::decode_as::<Ext>(t, o);
    let _ = api::decode_as::<Vec<Ext>>(t, o);
    let _ = api::decode_as::<Internal>(t, o);
    let _ = api::decode_as::<Vec<Adjacent>>(t, o);
    let _ = api::decode_as::<Untagged>(t, o);
    let _ = api::decode_as::<Flat>(t, o);
    let _ = api::decode_as::<Vec<Inner>>(t, o);
    let _ = api::decode_as::<BTreeMap<Color, Wrap<Clear<Inner>>>>(t, o);
}

/// A value of which no part can be serialized twice gives the same text as any other.
pub fn c10_single_use(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_options(s);
    let (_, v) = if s.chance(1, 4) { (Ty::Unit, odd_keys(s).0) } else { typed_value(s, true) };
    c.repr = format!("{} {v:?}", opts_text(&o));
    c.nontrivial = nodes(&v) > 2;
    let want = api::encode(&v, &o)?;
    #[allow(unused_mut)]
    let mut entries: Vec<(&str, fn(&Tv, &Options) -> Result<String, String>)> = vec![("encode_to_string", api::encode), ("ser::to_string", api::encode_buffered)];
    #[cfg(not(feature = "set-alloc"))]
    entries.push(("encode_to_writer", |v, o| {
        let mut b = Vec::new();
        toon::encode_to_writer(&mut b, v, o).map_err(|e| e.to_string())?;
        String::from_utf8(b).map_err(|e| e.to_string())
    }));
    for (name, f) in entries {
        c.checks += 1;
        match single_use(|| f(&v, &o)) {
            Err(e) => return Err(format!("{name} fails for a value that can be serialized once only: {e}\nvalue {v:?}")),
            Ok(t) if t != want => return Err(format!("{name} gives another text for a value that can be serialized once only\nvalue {v:?}\nwant {want:?}\ngot  {t:?}")),
            _ => {}
        }
    }
    Ok(())
}

// ---- C16 ----

/// Nodes of a value; keys of maps count, too.
fn nodes(v: &Tv) -> usize {
    1 + match v {
        Tv::Some(x) | Tv::Newtype(x) => nodes(x),
        Tv::Seq(a) | Tv::Tuple(a) | Tv::TupleStruct(a) | Tv::Struct(_, a, _) => a.iter().map(nodes).sum(),
        Tv::Map(m) => m.iter().map(|(_, v)| 1 + nodes(v)).sum(),
        Tv::Variant(_, _, v) => match &**v {
            VarTv::Unit => 0,
            VarTv::Newtype(x) => nodes(x),
            VarTv::Tuple(a) | VarTv::Struct(_, a, _) => a.iter().map(nodes).sum(),
        },
        _ => 0,
    }
}
/// Replaces node number `at`; map keys only if the replacement may be one.
fn replace(v: &mut Tv, at: usize, i: &mut usize, new: &mut dyn FnMut(bool) -> Option<Tv>) {
    if *i == at {
        *i += 1;
        if let Some(x) = new(false) {
            *v = x;
        }
        return;
    }
    *i += 1;
    match v {
        Tv::Some(x) | Tv::Newtype(x) => replace(x, at, i, new),
        Tv::Seq(a) | Tv::Tuple(a) | Tv::TupleStruct(a) | Tv::Struct(_, a, _) => a.iter_mut().for_each(|x| replace(x, at, i, new)),
        Tv::Map(m) => {
            for (k, v) in m {
                if *i == at
                    && let Some(x) = new(true)
                {
                    *k = x;
                }
                *i += 1;
                replace(v, at, i, new);
            }
        }
        Tv::Variant(_, _, v) => match &mut **v {
            VarTv::Unit => {}
            VarTv::Newtype(x) => replace(x, at, i, new),
            VarTv::Tuple(a) | VarTv::Struct(_, a, _) => a.iter_mut().for_each(|x| replace(x, at, i, new)),
        },
        _ => {}
    }
}
fn all_fail(v: &Tv, o: &Options) -> Result<(), String> {
    for (name, r) in api::encode_all(v, o) {
        if let Ok(t) = r {
            return Err(format!("{name} succeeds although serialization fails inside\nvalue {v:?}\ntext {t:?}"));
        }
    }
    Ok(())
}
fn inject(s: &mut Src, c: &mut Case, o: &Options, make: &mut dyn FnMut(&mut Src, bool) -> Option<Tv>) -> Result<(), String> {
    let (_, mut v) = typed_value(s, true);
    if s.chance(1, 3) {
        // within a row of an otherwise uniform table
        let n = if s.size > 20 && s.chance(1, 25) { s.many(6, 80, 400) } else { 1 + s.count(4) };
        let n = n.min(1 + 3000 / nodes(&v));
        v = Tv::Seq(vec![v; n]);
    }
    if s.chance(1, 60) {
        // far down
        for i in 0..s.range(3, 90) {
            v = if i % 3 == 0 { Tv::Seq(vec![v]) } else { Tv::Map(vec![(Tv::Str("a".into()), v)]) };
        }
    }
    let n = nodes(&v);
    let at = if s.chance(1, 6) { n - 1 } else { s.below(n) };
    let mut done = false;
    let mut i = 0;
    replace(&mut v, at, &mut i, &mut |key| {
        let x = make(s, key);
        done = x.is_some();
        x
    });
    if !done {
        return Ok(());
    }
    c.nontrivial = at > 0;
    c.repr = format!("{} {v:?}", opts_text(o));
    c.checks = api::encode_all(&Tv::Unit, o).len() as u64;
    all_fail(&v, o)
}
fn c16_failing(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_options(s);
    inject(s, c, &o, &mut |s, _| Some(if s.chance(1, 3) { Tv::FailsLate(s.below(5) as u8, (0..s.count(3)).map(|i| Tv::Int(Width::U8, i as i128)).collect()) } else { Tv::Fails }))
}
fn c16_unrepresentable(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_options(s);
    inject(s, c, &o, &mut |s, key| {
        if !key && s.chance(1, 2) {
            let big = match s.below(4) {
                0 => u64::MAX as i128 + 1 + s.below(3) as i128,
                1 => i128::MAX - s.below(3) as i128,
                2 => u64::MAX as i128 + 1 + (s.u64() as i128) * (s.u64() as i128 >> 2),
                _ => return Some(Tv::Int(Width::I128, if s.chance(1, 2) { i64::MIN as i128 - 1 - s.below(3) as i128 } else { i128::MIN + s.below(3) as i128 })),
            };
            return Some(Tv::Int(*s.pick(&[Width::I128, Width::U128]), big));
        }
        let x = Box::new(Tv::Int(Width::U8, 1));
        let compound = match s.below(11) {
            9 => Tv::Bytes(vec![b'a'; s.below(3)]),
            10 => Tv::Bytes(vec![0xff, s.below(256) as u8]),
            0 => Tv::Seq(vec![]),
            1 => Tv::Seq(vec![Tv::Str("a".into())]),
            2 => Tv::Tuple(vec![*x.clone(), *x]),
            3 => Tv::TupleStruct(vec![*x]),
            4 => Tv::Map(vec![]),
            5 => Tv::Struct(&["a"], vec![*x], false),
            6 => Tv::Variant(0, "A", Box::new(VarTv::Newtype(*x))),
            7 => Tv::Variant(0, "A", Box::new(VarTv::Tuple(vec![*x.clone(), *x]))),
            _ => Tv::Variant(0, "A", Box::new(VarTv::Struct(&["a"], vec![*x], false))),
        };
        // through a wrapper that leaves no trace
        let compound = match s.below(8) {
            0 => Tv::Some(Box::new(compound)),
            1 => Tv::Newtype(Box::new(compound)),
            _ => compound,
        };
        if key {
            return Some(compound);
        }
        let mut m: Vec<(Tv, Tv)> = (0..s.count(2)).map(|i| (Tv::Str(format!("k{i}")), Tv::Bool(true))).collect();
        m.push((compound, Tv::Unit));
        Some(Tv::Map(m))
    })
}
