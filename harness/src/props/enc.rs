//! Encoder properties: C01 round trip, C02 canonical text, C03 numbers, C04 strings, C10 entry points, C12 folding.

use crate::api;
use crate::engine::{Case, Src, Sub, clip};
use crate::generate::*;
use crate::refmodel::{self, Fold, Quote, same};
use crate::runner::Prop;
use serde_json::{Map, Number, Value, json};
use toon::{Delimiter, Options};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "A case is a generated JSON value plus encode options; it is encoded through the streaming and the value-based entry point and decoded strictly and leniently. Non-trivial: the value holds a container with at least one element. Distinct by value and options.",
            subs: vec![
                Sub { name: "any-value", f: c01_any, quick: 250_000, thorough: 6_000_000, max_size: 100 },
                Sub { name: "small-shapes", f: c01_shapes, quick: 400_000, thorough: 8_000_000, max_size: 60 },
                Sub { name: "deep", f: c01_deep, quick: 20_000, thorough: 400_000, max_size: 100 },
            ],
            known: vec![],
        },
        Prop {
            id: "C02",
            rule: "A case is a generated JSON value plus delimiter and indent; its text is compared byte for byte with an independent reference encoder. Typed values (random schemas over the serde data model) are compared with their JSON equivalent, too; odd-keys: with maps whose keys are floats, options or units; single-use: no part of the value can be serialized twice, as one that drains an iterator. Non-trivial: a container with at least one element. Distinct by value and options.",
            subs: vec![
                Sub { name: "any-value", f: c02_any, quick: 250_000, thorough: 6_000_000, max_size: 100 },
                Sub { name: "small-shapes", f: c02_shapes, quick: 400_000, thorough: 8_000_000, max_size: 60 },
                Sub { name: "tables", f: c02_tables, quick: 200_000, thorough: 4_000_000, max_size: 80 },
            ],
            known: vec![],
        },
        Prop {
            id: "C03",
            rule: "A case is a number (i64, u64, f64, f32, 128-bit, or a numeric token) with a position (root, field, list item, inline array, table cell, hyphen line, map key). Non-trivial: more than one digit or a special value. Distinct by number, kind, position and options.",
            subs: vec![
                Sub { name: "json-number", f: c03_json, quick: 600_000, thorough: 20_000_000, max_size: 100 },
                Sub { name: "typed-number", f: c03_typed, quick: 400_000, thorough: 10_000_000, max_size: 100 },
                Sub { name: "token", f: c03_token, quick: 600_000, thorough: 20_000_000, max_size: 100 },
            ],
            known: vec![],
        },
        Prop {
            id: "C04",
            rule: "A case is a Unicode string in one of 11 positions (value or key) under one delimiter. Non-trivial: the string needs quoting or is near a quoting rule (contains a non-alphanumeric character). Distinct by string, position and options.",
            subs: vec![
                Sub { name: "as-value", f: c04_value, quick: 600_000, thorough: 20_000_000, max_size: 60 },
                Sub { name: "as-key", f: c04_key, quick: 500_000, thorough: 15_000_000, max_size: 60 },
            ],
            known: vec![],
        },
        Prop {
            id: "C10",
            rule: "A case is a JSON value with encode options (key folding and flatten depth included); the outputs of all entry points are compared byte for byte. Typed values (random schemas over the serde data model) are compared with their JSON equivalent, too; odd-keys: with maps whose keys are floats, options or units; single-use: no part of the value can be serialized twice, as one that drains an iterator. Non-trivial: a container with at least one element. Distinct by value and options.",
            subs: vec![
                Sub { name: "any-value", f: c10_any, quick: 150_000, thorough: 4_000_000, max_size: 100 },
                Sub { name: "typed", f: c10_typed, quick: 150_000, thorough: 4_000_000, max_size: 80 },
                Sub { name: "single-use", f: super::ser::c10_single_use, quick: 100_000, thorough: 3_000_000, max_size: 70 },
                Sub { name: "odd-keys", f: c10_odd_keys, quick: 60_000, thorough: 2_000_000, max_size: 60 },
                Sub { name: "chains", f: c10_chains, quick: 300_000, thorough: 6_000_000, max_size: 70 },
            ],
            known: vec![],
        },
        Prop {
            id: "C12",
            rule: "A case is a JSON value rich in single-key chains, with folding on and a random flatten depth. Non-trivial: the reference folds at least one chain. Distinct by value and options.",
            subs: vec![
                Sub { name: "lossless", f: c12_lossless, quick: 300_000, thorough: 6_000_000, max_size: 80 },
                Sub { name: "exact-folds", f: c12_exact, quick: 300_000, thorough: 6_000_000, max_size: 80 },
                Sub { name: "collisions", f: c12_collisions, quick: 300_000, thorough: 6_000_000, max_size: 80 },
            ],
            known: vec![],
        },
    ]
}

fn nonempty(v: &Value) -> bool {
    match v {
        Value::Array(a) => !a.is_empty(),
        Value::Object(m) => !m.is_empty(),
        _ => false,
    }
}

pub fn roundtrip(v: &Value, o: &Options, c: &mut Case) -> Result<(), String> {
    let want = refmodel::denoted(v);
    let mut texts: Vec<(&str, String)> = Vec::new();
    for (name, r) in [("streaming", api::encode(v, o)), ("value-based", api::encode_buffered(v, o))] {
        let t = r.map_err(|e| format!("{name} encoding failed: {e}"))?;
        if !texts.iter().any(|(_, x)| *x == t) {
            texts.push((name, t));
        }
    }
    for (name, t) in &texts {
        for strict in [true, false] {
            let d = api::with(o, |o| o.strict = strict);
            let got = api::decode(t, &d).map_err(|e| format!("{name} text rejected (strict={strict}): {e}\ntext:\n{t}"))?;
            same(&want, &got).map_err(|e| format!("{name} text decodes differently (strict={strict}) {e}\ntext:\n{t}"))?;
            c.checks += 1;
        }
    }
    Ok(())
}

fn c01_any(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let v = value(s, cfg(s));
    c.nontrivial = nonempty(&v);
    c.repr = format!("{} {}", opts_text(&o), v);
    label_value(&v, c);
    roundtrip(&v, &o, c)
}
/// Structure only: few keys, few primitives, all the shapes.
pub fn shape(s: &mut Src) -> Value {
    let k = Cfg { depth: 2 + s.below(4), key: |s| s.pick(&["a", "b", "c", "x.y"]).to_string(), prim: |s| s.pick(&[json!(1), json!("s"), json!(null), json!("x y"), json!(true)]).clone(), budget: 24, max_width: 3 };
    value(s, k)
}
fn c01_shapes(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let v = shape(s);
    c.nontrivial = nonempty(&v);
    c.repr = format!("{} {}", opts_text(&o), v);
    label_value(&v, c);
    roundtrip(&v, &o, c)
}
/// Long chains of single containers.
fn c01_deep(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let n = 2 + s.below(2 + s.size as usize / 2);
    let mut v = simple_primitive(s);
    for _ in 0..n {
        let sib = s.chance(1, 3);
        v = if s.chance(1, 2) {
            let mut a = vec![v];
            if sib {
                a.push(simple_primitive(s));
            }
            Value::Array(a)
        } else {
            let mut m = Map::new();
            m.insert("a".into(), v);
            if sib {
                m.insert("b".into(), simple_primitive(s));
            }
            Value::Object(m)
        };
    }
    c.nontrivial = true;
    c.repr = format!("{} {}", opts_text(&o), v);
    label_value(&v, c);
    roundtrip(&v, &o, c)
}

/// Strings whose quoting the statement leaves open are replaced by ones it decides.
pub fn tame(v: String) -> String {
    let is_either = |v: &str| [Delimiter::Comma, Delimiter::Tab, Delimiter::Pipe].iter().any(|d| refmodel::quote_rule(v, *d) == Quote::Either);
    if !is_either(&v) {
        return v;
    }
    let t: String = v.chars().filter(|c| !(0x80..0xa0).contains(&(*c as u32))).collect();
    if is_either(&t) { format!("q{t}q") } else { t }
}
pub fn tame_prim(s: &mut Src) -> Value {
    match primitive(s) {
        Value::String(x) => Value::String(tame(x)),
        x => x,
    }
}

pub fn layout_ok(t: &str, o: &Options) -> Result<(), String> {
    for (i, l) in t.split('\n').enumerate() {
        if l.is_empty() && t.is_empty() {
            continue;
        }
        if l.trim_start_matches(' ').is_empty() {
            return Err(format!("line {} is blank", i + 1));
        }
        if l.ends_with(' ') {
            return Err(format!("line {} has a trailing space", i + 1));
        }
        let ind = l.len() - l.trim_start_matches(' ').len();
        if ind % o.indent != 0 {
            return Err(format!("line {} is indented by {ind}", i + 1));
        }
        if o.delimiter != Delimiter::Tab && l.contains('\t') {
            return Err(format!("line {} contains a tab", i + 1));
        }
        if l.contains('\r') {
            return Err(format!("line {} contains a carriage return", i + 1));
        }
    }
    Ok(())
}

fn canonical(v: &Value, o: &Options, c: &mut Case) -> Result<(), String> {
    let v = &refmodel::untie(v.clone());
    c.nontrivial = nonempty(v);
    c.repr = format!("{} {}", opts_text(o), v);
    label_value(v, c);
    let want = refmodel::encode(v, o.delimiter, o.indent, Fold { on: false, depth: None });
    for (name, r) in [("streaming", api::encode(v, o)), ("value-based", api::encode_buffered(v, o))] {
        let t = r.map_err(|e| format!("{name} encoding failed: {e}"))?;
        if t != want {
            return Err(format!("{name} text is\n{t}\ncanonical text is\n{want}"));
        }
        layout_ok(&t, o).map_err(|e| format!("{name}: {e}\n{t}"))?;
        c.checks += 1;
    }
    Ok(())
}
fn c02_any(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let k = Cfg { prim: tame_prim, ..cfg(s) };
    let v = value(s, k);
    canonical(&v, &o, c)
}
fn c02_shapes(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let v = shape(s);
    canonical(&v, &o, c)
}
/// Arrays of objects, near-uniform, in every position.
fn c02_tables(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let k = Cfg { depth: 1, key: any_key, prim: tame_prim, budget: 60, max_width: 5 };
    let v = near_table(s, k);
    let v = match s.below(6) {
        0 => v,
        1 => json!({"t": v}),
        2 => json!([v, 1]),
        3 => json!([{"t": v, "u": 1}]),
        4 => json!([{"u": 1, "t": v}]),
        _ => json!({"p": {"t": v}, "u": [v]}),
    };
    canonical(&v, &o, c)
}

// ---- C03 ----

fn place(pos: usize, x: Value) -> (Value, &'static str) {
    match pos {
        0 => (x, "root"),
        1 => (json!({"k": x}), "field"),
        2 => (json!({"a": {"k": x, "l": 1}}), "nested-field"),
        3 => (json!([x, "p"]), "root-inline"),
        4 => (json!({"k": ["p", x]}), "inline"),
        5 => (json!([x, {}]), "list-item"),
        6 => (json!({"k": [{}, x]}), "nested-list-item"),
        7 => (json!({"k": [{"c": 1, "d": x}, {"c": x, "d": 2}]}), "table-cell"),
        8 => (json!([{"c": x}]), "root-table-cell"),
        9 => (json!([{"c": x, "d": {}}]), "hyphen-line"),
        10 => (json!([{"d": [], "c": x}]), "item-field"),
        11 => (json!([[x, 1], [[x]]]), "nested-inline"),
        12 => (json!([{"c": [{"d": x}]}]), "hyphen-table"),
        13 => (json!([{"c": [x]}, {"c": {"d": x}}]), "hyphen-inline"),
        _ => (json!([[x, {}], [{"z": x}]]), "deep-list"),
    }
}
const POSITIONS: u64 = 15;

fn c03_json(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let n = any_number(s);
    let (v, pos) = place(s.draw(POSITIONS) as usize, refmodel::untie(Value::Number(n.clone())));
    c.repr = format!("{} {} {}", opts_text(&o), pos, v);
    c.nontrivial = n.to_string().len() > 1;
    c.label(pos);
    c.label(if n.is_f64() { "f64" } else if n.is_i64() { "i64" } else { "u64" });
    let want = refmodel::encode(&v, o.delimiter, o.indent, Fold { on: false, depth: None });
    for (name, r) in [("streaming", api::encode(&v, &o)), ("value-based", api::encode_buffered(&v, &o))] {
        let t = r.map_err(|e| format!("{name} encoding failed: {e}"))?;
        if t != want {
            return Err(format!("{name} text is\n{t}\nexpected\n{want}"));
        }
        c.checks += 1;
    }
    let got = api::decode(&want, &o).map_err(|e| format!("rejected: {e}\n{want}"))?;
    same(&refmodel::denoted(&v), &got).map_err(|e| format!("{e}\ntext:\n{want}"))
}

#[derive(serde::Serialize, Clone, Copy, Debug)]
#[serde(untagged)]
enum Num {
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
}
#[derive(serde::Serialize)]
struct OneField<T> {
    c: T,
}
#[derive(serde::Serialize)]
struct TwoFields<T, U> {
    c: T,
    d: U,
}
#[derive(serde::Serialize)]
struct Empty {}
#[derive(serde::Serialize)]
enum Wrap<T> {
    N(T),
    S { c: T },
    T(T, bool),
}

fn c03_typed(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let f = match s.weighted(&[6, 1, 1, 1]) {
        0 => any_f64(s),
        1 => f64::NAN,
        2 => f64::INFINITY,
        _ => f64::NEG_INFINITY,
    };
    let f = if refmodel::is_tie(f) || refmodel::is_tie(f as f32 as f64) { 2.5 } else { f };
    let i = any_i64(s);
    let n = match s.below(10) {
        0 => Num::F64(f),
        1 => Num::F32(f as f32),
        2 => Num::I8(i as i8),
        3 => Num::I16(i as i16),
        4 => Num::I32(i as i32),
        5 => Num::I64(i),
        6 => Num::U8(i as u8),
        7 => Num::U16(i as u16),
        8 => Num::U32(i as u32),
        _ => Num::U64(i as u64),
    };
    let jf = |f: f64| Number::from_f64(f).map(Value::Number).unwrap_or(Value::Null);
    let x = match n {
        Num::I8(x) => json!(x),
        Num::I16(x) => json!(x),
        Num::I32(x) => json!(x),
        Num::I64(x) => json!(x),
        Num::U8(x) => json!(x),
        Num::U16(x) => json!(x),
        Num::U32(x) => json!(x),
        Num::U64(x) => json!(x),
        Num::F32(x) => jf(x as f64),
        Num::F64(x) => jf(x),
    };
    let pos = s.below(13);
    let run = |c: &mut Case, want: Value, ts: Vec<(&'static str, Result<String, String>)>| -> Result<(), String> {
        c.repr = format!("{} {:?} at position {} ({})", opts_text(&o), n, pos, want);
        c.nontrivial = x.to_string().len() > 1;
        c.label(if x.is_null() { "non-finite" } else if x.is_f64() { "float" } else { "integer" });
        let wt = refmodel::encode(&want, o.delimiter, o.indent, Fold { on: false, depth: None });
        for (name, r) in ts {
            let t = r.map_err(|e| format!("{name} encoding failed: {e}"))?;
            if t != wt {
                return Err(format!("{name} text is\n{t}\nexpected\n{wt}"));
            }
            c.checks += 1;
        }
        let got = api::decode(&wt, &o).map_err(|e| format!("rejected: {e}\n{wt}"))?;
        same(&refmodel::denoted(&want), &got).map_err(|e| format!("{e}\ntext:\n{wt}"))
    };
    macro_rules! go {
        ($val:expr, $want:expr) => {{
            let val = $val;
            run(c, $want, vec![("streaming", api::encode(&val, &o)), ("value-based", api::encode_buffered(&val, &o))])
        }};
    }
    match pos {
        0 => go!(n, x.clone()),
        1 => go!(OneField { c: n }, json!({"c": x})),
        2 => go!(OneField { c: OneField { c: Some(n) } }, json!({"c": {"c": x}})),
        3 => go!(vec![n, n], json!([x, x])),
        4 => go!(OneField { c: (n, "s") }, json!({"c": [x, "s"]})),
        5 => go!((n, Empty {}), json!([x, {}])),
        6 => go!(vec![TwoFields { c: n, d: 1 }], json!([{"c": x, "d": 1}])),
        7 => go!(OneField { c: vec![OneField { c: n }, OneField { c: n }] }, json!({"c": [{"c": x}, {"c": x}]})),
        8 => go!((TwoFields { c: n, d: Empty {} }, TwoFields { c: n, d: Empty {} }), json!([{"c": x, "d": {}}, {"c": x, "d": {}}])),
        9 => go!((TwoFields { c: Empty {}, d: n }, vec![vec![n]]), json!([{"c": {}, "d": x}, [[x]]])),
        10 => go!(OneField { c: Wrap::N(n) }, json!({"c": {"N": x}})),
        11 => go!(OneField { c: Wrap::S { c: n } }, json!({"c": {"S": {"c": x}}})),
        _ => go!(OneField { c: Wrap::T(n, true) }, json!({"c": {"T": [x, true]}})),
    }
}

/// A token of the JSON number grammar.
pub fn json_token(s: &mut Src) -> String {
    let mut t = String::new();
    if s.chance(1, 3) {
        t.push('-');
    }
    let digits = |s: &mut Src, t: &mut String, max: usize| {
        let n = 1 + s.below(max);
        for _ in 0..n {
            t.push((b'0' + s.below(10) as u8) as char);
        }
    };
    match s.weighted(&[4, 2, 2, 2]) {
        0 => {
            t.push((b'1' + s.below(9) as u8) as char);
            if s.chance(1, 2) {
                digits(s, &mut t, 5)
            }
        }
        1 => t.push('0'),
        2 => {
            t.push((b'1' + s.below(9) as u8) as char);
            let n = if s.chance(1, 12) { s.range(25, 310) } else { 25 };
            digits(s, &mut t, n)
        }
        _ => t.push_str(s.pick::<&str>(&[
            "9223372036854775807",
            "9223372036854775808",
            "9223372036854775809",
            "18446744073709551615",
            "18446744073709551616",
            "18446744073709551614",
            "9007199254740993",
            "4294967296",
            "99999999999999999999",
            "100000000000000000000000",
        ])),
    }
    if s.chance(2, 5) {
        t.push('.');
        match s.weighted(&[30, 3, 3]) {
            0 => digits(s, &mut t, 12),
            1 => {
                let n = s.many(12, 60, 800);
                digits(s, &mut t, n)
            }
            _ => {
                // a digit far behind decides
                t.push_str(s.pick::<&str>(&["", "5", "25", "1"]));
                let n = s.many(1, 60, 800);
                t.push_str(&"0".repeat(n));
                t.push((b'0' + s.below(10) as u8) as char);
            }
        }
    }
    if s.chance(2, 5) {
        t.push(if s.chance(1, 2) { 'E' } else { 'e' });
        t.push_str(s.pick::<&str>(&["", "-", "+"]));
        match s.weighted(&[6, 2, 1]) {
            0 => digits(s, &mut t, 2),
            1 => digits(s, &mut t, 3),
            _ => {
                let n = if s.chance(1, 10) { s.range(2, 30) } else { 1 };
                t.push_str(&"0".repeat(n));
                digits(s, &mut t, 2)
            }
        }
    }
    t
}
/// The number a token denotes; None when it overflows to infinity.
pub fn token_value(t: &str) -> Option<Number> {
    let plain = !t.contains(['.', 'e', 'E']);
    if plain {
        if let Ok(i) = t.parse::<i64>() {
            return Some(Number::from(i));
        }
        if let Ok(u) = t.parse::<u64>() {
            return Some(Number::from(u));
        }
    }
    let f: f64 = t.parse().unwrap();
    Number::from_f64(f)
}
/// An integer-valued float may be held as an integer of the same value.
pub fn num_denotes(want: &Number, got: &Number) -> bool {
    if want.is_f64() {
        let f = want.as_f64().unwrap();
        if let Some(g) = got.as_i64() {
            return g as f64 == f && g as i128 == f as i128;
        }
        if let Some(g) = got.as_u64() {
            return g as f64 == f && g as i128 == f as i128;
        }
        got.as_f64() == Some(f)
    } else {
        refmodel::num_eq(want, got)
    }
}
fn c03_token(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = api::with(&options(s), |o| o.indent = 2);
    let t = json_token(s);
    let d = refmodel::delim_char(o.delimiter);
    let ds = if d == ',' { String::new() } else { d.to_string() };
    let pos = s.below(8);
    let (doc, ptr) = match pos {
        0 => (t.clone(), ""),
        1 => (format!("k: {t}"), "/k"),
        2 => (format!("a:\n  k: {t}"), "/a/k"),
        3 => (format!("[2{ds}]: x{d}{t}"), "/1"),
        4 => (format!("k[2{ds}]: {t}{d}x"), "/k/0"),
        5 => (format!("k[1{ds}]:\n  - {t}"), "/k/0"),
        6 => (format!("k[1{ds}]{{a{d}b}}:\n  1{d}{t}"), "/k/0/b"),
        _ => (format!("[1{ds}]:\n  - k: {t}\n    l: 1"), "/0/k"),
    };
    c.repr = format!("{} {:?}", opts_text(&o), doc);
    c.nontrivial = t.len() > 1;
    c.label(if t.contains(['e', 'E']) { "exponent" } else if t.contains('.') { "fraction" } else { "integer" });
    let want = token_value(&t);
    for strict in [true, false] {
        let o = api::with(&o, |o| o.strict = strict);
        let r = api::decode(&doc, &o);
        let Some(want) = &want else {
            // beyond the f64 range: an error or anything finite is not promised, but never a panic
            c.label("overflow");
            continue;
        };
        let got = r.map_err(|e| format!("rejected: {e}"))?;
        let got = got.pointer(ptr).ok_or("value not found")?;
        let Value::Number(g) = got else { return Err(format!("numeric token {t} decoded to {got}")) };
        if !num_denotes(want, g) {
            return Err(format!("token {t} decoded to {g}, expected {want}"));
        }
        c.checks += 1;
        // and back again: one more round is exact
        let t2 = api::encode(got, &o)?;
        if g.is_f64() && refmodel::is_tie(g.as_f64().unwrap()) {
            continue;
        }
        if t2 != refmodel::num_text(g) {
            return Err(format!("token {t}: re-encoded as {t2}, expected {}", refmodel::num_text(g)));
        }
    }
    Ok(())
}

// ---- C04 ----

fn tok_in_line<'a>(t: &'a str, marker_before: &str, marker_after: &str) -> Option<&'a str> {
    let t = t.strip_prefix(marker_before)?;
    t.strip_suffix(marker_after)
}
fn only_known_escapes(t: &str) -> Result<(), String> {
    let inner = t.strip_prefix('"').and_then(|t| t.strip_suffix('"')).ok_or("not quoted at both ends")?;
    let cs: Vec<char> = inner.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '\\' => {
                match cs.get(i + 1) {
                    Some('\\' | '"' | 'n' | 'r' | 't') => i += 1,
                    Some('u') if cs.len() > i + 5 && cs[i + 2..i + 6].iter().all(|c| c.is_ascii_hexdigit()) => i += 5,
                    x => return Err(format!("escape \\{x:?}")),
                };
            }
            '"' => return Err("bare quote inside a quoted string".into()),
            x if (x as u32) < 0x20 || x as u32 == 0x7f => return Err("raw control character".into()),
            _ => {}
        }
        i += 1;
    }
    Ok(())
}

fn c04_value(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let st = any_string(s);
    let d = refmodel::delim_char(o.delimiter);
    let hd = if d == ',' { String::new() } else { d.to_string() };
    let i1 = " ".repeat(o.indent);
    let x = Value::String(st.clone());
    let pos = s.below(11);
    // (value, text before the token, text after the token)
    let (v, pre, post) = match pos {
        0 => (x.clone(), String::new(), String::new()),
        1 => (json!({"k": x}), "k: ".into(), String::new()),
        2 => (json!({"a": {"k": x, "l": 1}}), format!("a:\n{i1}k: "), format!("\n{i1}l: 1")),
        3 => (json!([x]), format!("[1{hd}]: "), String::new()),
        4 => (json!({"k": [1, x, 2]}), format!("k[3{hd}]: 1{d}"), format!("{d}2")),
        5 => (json!({"k": [x, {}]}), format!("k[2{hd}]:\n{i1}- "), format!("\n{i1}-")),
        6 => (json!([{"c": x, "e": true}]), format!("[1{hd}]{{c{d}e}}:\n{i1}"), format!("{d}true")),
        7 => (json!({"t": [{"c": 1, "e": x}]}), format!("t[1{hd}]{{c{d}e}}:\n{i1}1{d}"), String::new()),
        8 => (json!([{"c": x, "e": {}}]), format!("[1{hd}]:\n{i1}- c: "), format!("\n{i1}{i1}e:")),
        9 => (json!([{"e": {}, "c": x}]), format!("[1{hd}]:\n{i1}- e:\n{i1}{i1}c: "), String::new()),
        _ => (json!({"t": [{"c": x}]}), format!("t[1{hd}]{{c}}:\n{i1}"), String::new()),
    };
    c.repr = format!("{} position {} {:?}", opts_text(&o), pos, st);
    let rule = refmodel::quote_rule(&st, o.delimiter);
    c.nontrivial = rule != Quote::MustNot || st.chars().any(|c| !c.is_ascii_alphanumeric());
    c.label(match rule {
        Quote::Must => "must-quote",
        Quote::MustNot => "must-not-quote",
        Quote::Either => "either",
    });
    check_token(c, &v, &o, &st, rule, &pre, &post)
}

fn check_token(c: &mut Case, v: &Value, o: &Options, st: &str, rule: Quote, pre: &str, post: &str) -> Result<(), String> {
    for (name, r) in [("streaming", api::encode(v, o)), ("value-based", api::encode_buffered(v, o))] {
        let t = r.map_err(|e| format!("{name} encoding failed: {e}"))?;
        for strict in [true, false] {
            let d = api::with(o, |o| o.strict = strict);
            let got = api::decode(&t, &d).map_err(|e| format!("{name} text rejected (strict={strict}): {e}\n{t:?}"))?;
            same(v, &got).map_err(|e| format!("{name} (strict={strict}) {e}\ntext: {t:?}"))?;
        }
        let tok = tok_in_line(&t, pre, post).ok_or_else(|| format!("{name}: unexpected text {t:?} (looked for {pre:?} … {post:?})"))?;
        let quoted = tok.starts_with('"');
        if quoted {
            only_known_escapes(tok).map_err(|e| format!("{name}: token {tok:?}: {e}"))?;
        } else if tok != st {
            return Err(format!("{name}: unquoted token {tok:?} for string {st:?}"));
        }
        match rule {
            Quote::Must if !quoted => return Err(format!("{name}: {st:?} must be quoted but is written {tok:?}")),
            Quote::MustNot if quoted => return Err(format!("{name}: {st:?} needs no quotes but is written {tok:?}")),
            _ => {}
        }
        if rule == Quote::Must && tok != refmodel::quoted(st) {
            return Err(format!("{name}: {st:?} is written {tok:?}, expected {:?}", refmodel::quoted(st)));
        }
        c.checks += 1;
    }
    Ok(())
}

fn c04_key(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let k = if s.chance(1, 2) { any_string(s) } else { any_key(s) };
    if matches!(k.as_str(), "e" | "b") {
        return Ok(());
    }
    let d = refmodel::delim_char(o.delimiter);
    let hd = if d == ',' { String::new() } else { d.to_string() };
    let i1 = " ".repeat(o.indent);
    let m = |x: Value| Value::Object([(k.clone(), x)].into_iter().collect());
    let m2 = |x: Value, k2: &str, y: Value| Value::Object([(k.clone(), x), (k2.to_string(), y)].into_iter().collect());
    let pos = s.below(11);
    let (v, pre, post) = match pos {
        0 => (m(json!(1)), String::new(), ": 1".to_string()),
        1 => (json!({"b": m(json!("x"))}), format!("b:\n{i1}"), ": x".into()),
        2 => (m(json!({"b": 1})), String::new(), format!(":\n{i1}b: 1")),
        3 => (m(json!([1, 2])), String::new(), format!("[2{hd}]: 1{d}2")),
        4 => (m(json!([{"b": 1}])), String::new(), format!("[1{hd}]{{b}}:\n{i1}1")),
        5 => (json!([m2(json!(1), "e", json!(2))]), format!("[1{hd}]{{"), format!("{d}e}}:\n{i1}1{d}2")),
        6 => (json!({"b": [m2(json!(1), "e", json!({}))]}), format!("b[1{hd}]:\n{i1}- "), format!(": 1\n{i1}{i1}e:")),
        7 => (json!({"b": [m2(json!([1]), "e", json!({}))]}), format!("b[1{hd}]:\n{i1}- "), format!("[1{hd}]: 1\n{i1}{i1}e:")),
        8 => (m(json!([])), String::new(), format!("[0{hd}]:")),
        9 => (json!([m(json!({}))]), format!("[1{hd}]:\n{i1}- "), ":".into()),
        _ => (json!([m(json!([{}, 1]))]), format!("[1{hd}]:\n{i1}- "), format!("[2{hd}]:\n{i1}{i1}{i1}-\n{i1}{i1}{i1}- 1")),
    };
    c.repr = format!("{} key position {} {:?}", opts_text(&o), pos, k);
    let rule = if refmodel::key_plain(&k) { Quote::MustNot } else { Quote::Must };
    c.nontrivial = rule == Quote::Must || k.contains('.');
    c.label(if rule == Quote::Must { "quoted-key" } else { "plain-key" });
    check_token(c, &v, &o, &k, rule, &pre, &post)
}

// ---- C10 ----

fn same_everywhere(v: &Value, o: &Options, c: &mut Case) -> Result<(), String> {
    c.nontrivial = nonempty(v);
    c.repr = format!("{} {}", opts_text(o), v);
    let all = api::encode_all_value(v, o);
    let (n0, r0) = &all[0];
    for (n, r) in &all[1..] {
        if r != r0 {
            return Err(format!("{n0}: {}\n{n}: {}", clip(&format!("{r0:?}"), 1500), clip(&format!("{r:?}"), 1500)));
        }
        c.checks += 1;
    }
    r0.as_ref().map(|_| ()).map_err(|e| format!("encoding failed: {e}"))
}
/// A typed value through every entry point, against its JSON equivalent.
fn c10_typed(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_options(s);
    let (t, v) = super::ser::typed_value(s, true);
    c.repr = format!("{} {v:?}", opts_text(&o));
    c.nontrivial = crate::typed::count_ty(&t) > 1;
    let json = serde_json::to_value(&v).map_err(|e| format!("harness: serde_json cannot represent {v:?}: {e}"))?;
    let want = api::encode_buffered(&json, &o)?;
    for (name, r) in api::encode_all(&v, &o) {
        c.checks += 1;
        match r {
            Ok(got) if got == want => {}
            r => return Err(format!("{name} of a typed value differs from the text of its JSON equivalent\nvalue {v:?}\nwant {want:?}\ngot  {r:?}")),
        }
    }
    Ok(())
}
fn c10_odd_keys(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_options(s);
    let (odd, plain) = super::ser::odd_keys(s);
    c.repr = format!("{} {odd:?}", opts_text(&o));
    c.nontrivial = true;
    let json = serde_json::to_value(&plain).map_err(|e| format!("harness: serde_json cannot represent {plain:?}: {e}"))?;
    let want = api::encode_buffered(&json, &o)?;
    for (name, r) in api::encode_all(&odd, &o) {
        c.checks += 1;
        match r {
            Ok(got) if got == want => {}
            r => return Err(format!("{name} of a typed value differs from the text of its JSON equivalent\nvalue {odd:?}\nwant {want:?}\ngot  {r:?}")),
        }
    }
    Ok(())
}
fn c10_any(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_options(s);
    let v = value(s, cfg(s));
    label_value(&v, c);
    same_everywhere(&v, &o, c)
}
fn c10_chains(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_options(s);
    let v = chainy(s, true);
    label_value(&v, c);
    same_everywhere(&v, &o, c)
}

// ---- C12 ----

/// Values rich in single-key chains; with `dotted`, keys that look like folded ones occur too.
pub fn chainy(s: &mut Src, dotted: bool) -> Value {
    fn key(s: &mut Src, dotted: bool) -> String {
        if dotted && s.chance(1, 4) {
            let n = 2 + s.below(2);
            return (0..n).map(|_| *s.pick(&["a", "b", "c"])).collect::<Vec<_>>().join(".");
        }
        match s.weighted(&[8, 1, 1]) {
            0 => s.pick(&["a", "b", "c"]).to_string(),
            1 => ident(s),
            _ => s.pick(&["x-y", "1", "", "é", "a b", "\u{200b}a", "-", "true", "[1]"]).to_string(),
        }
    }
    fn chain(s: &mut Src) -> Value {
        let mut v = match s.weighted(&[5, 1, 1, 1, 1]) {
            0 => simple_primitive(s),
            1 => json!({}),
            2 => json!([]),
            3 => json!({"a": 1, "b": {"c": null}}),
            _ => json!([{"a": 1}]),
        };
        for _ in 0..1 + s.below(4) {
            let k = match s.weighted(&[8, 2, 1]) {
                0 => s.pick(&["a", "b", "_", "_x", "A1", "zZ_9"]).to_string(),
                1 => s.pick(&["x-y", "1", "", "é", "a b", "-", "true"]).to_string(),
                _ => ident(s),
            };
            v = Value::Object(Map::from_iter([(k, v)]));
        }
        v
    }
    fn go(s: &mut Src, depth: usize, dotted: bool, budget: &mut usize) -> Value {
        *budget = budget.saturating_sub(1);
        if depth == 0 || *budget == 0 {
            return match s.weighted(&[5, 1, 1]) {
                0 => simple_primitive(s),
                1 => json!({}),
                _ => json!([]),
            };
        }
        match s.weighted(&[8, 4, 3, 2, 1]) {
            0 => {
                let k = key(s, dotted);
                let mut v = go(s, depth - 1, dotted, budget);
                if s.size > 20 && s.chance(1, 50) {
                    // a long chain
                    for _ in 0..s.range(5, 70) {
                        let k = if s.chance(1, 40) { key(s, dotted) } else { s.pick(&["a", "b", "Key_1", "c"]).to_string() };
                        v = Value::Object(Map::from_iter([(k, v)]));
                    }
                }
                let mut m = Map::new();
                m.insert(k, v);
                Value::Object(m)
            }
            1 => {
                let wide = s.size > 20 && s.chance(1, 50);
                let n = if wide { s.many(8, 60, 300) } else { 1 + s.below(3) };
                // among many keys, most are of their own, and the others come anywhere
                let own = if s.chance(1, 2) { (2, 3) } else { (19, 20) };
                let chains = s.chance(1, 3);
                let mut m = Map::new();
                for i in 0..n {
                    let (k, v) = if wide && chains && s.chance(3, 4) {
                        (format!("{}w{i}", if s.chance(1, 3) { "_" } else { "" }), chain(s))
                    } else if wide && s.chance(own.0, own.1) {
                        (format!("w{i}"), if s.chance(1, 8) { go(s, depth - 1, dotted, budget) } else { simple_primitive(s) })
                    } else {
                        (key(s, dotted), go(s, depth - 1, dotted, budget))
                    };
                    m.insert(k, v);
                }
                Value::Object(m)
            }
            2 => {
                let n = s.below(4);
                Value::Array((0..n).map(|_| go(s, depth - 1, dotted, budget)).collect())
            }
            3 => {
                let k = key(s, dotted);
                let n = 1 + s.below(2);
                Value::Array((0..n).map(|_| { let mut m = Map::new(); m.insert(k.clone(), simple_primitive(s)); Value::Object(m) }).collect())
            }
            _ => simple_primitive(s),
        }
    }
    let depth = 2 + s.below(3 + s.size as usize / 14);
    let mut b = 30;
    go(s, depth, dotted, &mut b)
}

fn fold_on(s: &mut Src) -> Options {
    let mut o = options(s);
    o.key_folding = toon::KeyFolding::Safe;
    o.flatten_depth = any_depth(s);
    o
}
fn count_folds(v: &Value, o: &Options) -> bool {
    refmodel::encode_opts(v, o) != refmodel::encode(v, o.delimiter, o.indent, Fold { on: false, depth: None })
}
fn c12_lossless(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_on(s);
    let v = chainy(s, false);
    c.nontrivial = count_folds(&v, &o);
    if c.nontrivial {
        c.label("folds");
    }
    c.repr = format!("{} {}", opts_text(&o), v);
    let want = refmodel::denoted(&v);
    for (name, r) in [("streaming", api::encode(&v, &o)), ("value-based", api::encode_buffered(&v, &o))] {
        let t = r.map_err(|e| format!("{name} encoding failed: {e}"))?;
        for strict in [true, false] {
            let d = api::with(&o, |o| {
                o.strict = strict;
                o.expand_paths = toon::ExpandPaths::Safe;
            });
            let got = api::decode(&t, &d).map_err(|e| format!("{name} text rejected (strict={strict}): {e}\n{t}"))?;
            same(&want, &got).map_err(|e| format!("{name} (strict={strict}) {e}\ntext:\n{t}"))?;
            c.checks += 1;
        }
    }
    Ok(())
}
fn exact(s: &mut Src, c: &mut Case, dotted: bool) -> Result<(), String> {
    let o = fold_on(s);
    let v = chainy(s, dotted);
    c.nontrivial = count_folds(&v, &o);
    if c.nontrivial {
        c.label("folds");
    }
    c.repr = format!("{} {}", opts_text(&o), v);
    let want = refmodel::encode_opts(&v, &o);
    for (name, r) in [("streaming", api::encode(&v, &o)), ("value-based", api::encode_buffered(&v, &o))] {
        let t = r.map_err(|e| format!("{name} encoding failed: {e}"))?;
        if t != want {
            return Err(format!("{name} text is\n{t}\nexpected\n{want}"));
        }
        c.checks += 1;
    }
    Ok(())
}
fn c12_exact(s: &mut Src, c: &mut Case) -> Result<(), String> {
    exact(s, c, false)
}
/// Keys that collide with folded ones: nothing may be lost.
fn c12_collisions(s: &mut Src, c: &mut Case) -> Result<(), String> {
    exact(s, c, true)
}
