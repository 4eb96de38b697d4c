//! C07: nothing in decoding panics, overflows, exhausts the stack or hangs, whatever the text.

use super::ser::typed_value;
use crate::api;
use crate::doc;
use crate::engine::*;
use crate::generate::*;
use crate::refmodel;
use crate::runner::Prop;
use crate::soup;
use crate::typed::*;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use toon::{ExpandPaths, Options};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C07",
        rule: "texts: arbitrary text (valid, broken, mutated, line and character soups, huge counts, documents cut anywhere) through every decode entry point, dynamic and typed, strict and lenient, path expansion on and off, any indent option, and through the scanner, validator, parser and path expansion. typed: documents decoded into random schemas and many Rust types. deep: up to 128 levels of every kind of nesting and 128-segment paths, on a 2 MB stack. large: texts of up to 300 kB. huge: 1.5 to 4 MB of one construct (24 shapes: long strings, numbers, keys, wide tables, many rows, items, fields, blanks), decoded strictly, leniently, expanded (not with many keys) and into another type. A case fails if it panics, ends the process, or does not end. Non-trivial: more than one line. Distinct by text and options. Run under all three feature sets.",
        subs: vec![
            Sub { name: "texts", f: c07_texts, quick: 500_000, thorough: 5_000_000, max_size: 80 },
            Sub { name: "typed", f: c07_typed, quick: 500_000, thorough: 5_000_000, max_size: 80 },
            Sub { name: "deep", f: c07_deep, quick: 1_500, thorough: 60_000, max_size: 70 },
            Sub { name: "large", f: c07_large, quick: 25, thorough: 2_000, max_size: 70 },
            Sub { name: "huge", f: c07_huge, quick: 16, thorough: 2_000, max_size: 70 },
        ],
        known: vec![],
    }]
}

fn any_options(s: &mut Src, o: Options) -> Options {
    let mut o = o;
    o.strict = s.chance(1, 2);
    if s.chance(1, 3) {
        o.expand_paths = ExpandPaths::Safe;
    }
    if s.chance(1, 8) {
        o.indent = *s.pick(&[0, 1, 3, 100, 1 << 20, 1 << 40, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
    }
    if s.chance(1, 8) {
        o.flatten_depth = Some(*s.pick(&[0, 1, 5, usize::MAX]));
    }
    o
}
const COUNTS: &[&str] = &[
    "0", "1", "2", "00", "007", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-1", "+1", "1.5", "1e3", " 3",
    "3 ", "٣", "𝟛", "",
];
/// Replaces digit runs by awkward counts, or cuts the text anywhere.
fn worsen(s: &mut Src, t: String) -> String {
    match s.weighted(&[5, 2, 2, 1]) {
        0 => t,
        1 => {
            let b = t.as_bytes();
            let runs: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit())).collect();
            if runs.is_empty() {
                return t;
            }
            let i = *s.pick(&runs);
            let e = (i..b.len()).find(|&j| !b[j].is_ascii_digit()).unwrap_or(b.len());
            format!("{}{}{}", &t[..i], s.pick::<&str>(COUNTS), &t[e..])
        }
        2 => {
            let mut e = s.below(t.len() + 1);
            while !t.is_char_boundary(e) {
                e += 1;
            }
            if s.chance(1, 2) { t[..e].to_string() } else { t[e..].to_string() }
        }
        _ => {
            // a multi-byte character at any place
            let cuts: Vec<usize> = t.char_indices().map(|(i, _)| i).chain([t.len()]).collect();
            let at = *s.pick(&cuts);
            format!("{}{}{}", &t[..at], s.pick::<&str>(&["é", "日", "😀", "\u{feff}", "\u{200b}", "\u{0}", "\r", "\u{2028}", "\u{85}", "\u{a0}"]), &t[at..])
        }
    }
}

/// Every untyped entry point once.
fn everything(t: &str, o: &Options) {
    let _ = api::decode(t, o);
    #[cfg(not(feature = "set-alloc"))]
    let _ = toon::decode_from_reader::<_, Value>(t.as_bytes(), o);
    #[cfg(feature = "inner")]
    everything_inside(t, o);
}
#[cfg(feature = "inner")]
fn everything_inside(t: &str, o: &Options) {
    use toon::decode::{parser, path_expand, scanner, validation};
    let lines = scanner::scan(t);
    let raw: Vec<&str> = t.lines().collect();
    for w in [o.indent, 2, 0] {
        let _ = validation::validate_indentation_with_size(&lines, &raw, w);
    }
    let _ = validation::validate_indentation(&lines);
    for strict in [true, false] {
        if let Ok(v) = parser::parse_to_internal_value_from_lines(scanner::scan(t), strict) {
            let _ = path_expand::expand_paths(v.clone(), strict);
            let _ = path_expand::expand_paths(v, !strict);
        }
        let _ = parser::parse_to_value_with_strict(t, strict);
        let o2 = api::with(o, |o| o.strict = strict);
        if let Ok(v) = parser::parse_to_internal_value_with_options(scanner::scan(t), &o2) {
            let _ = path_expand::expand_paths(v, strict);
        }
    }
    let _ = parser::parse_to_internal_value(t);
    let mut p = parser::Parser::from_input(t).with_indent_size(o.indent).with_literal_keys_marked(o.strict);
    let _ = p.is_empty();
    let _ = p.parse_document();
    let _ = parser::Parser::from_input_with_strict(t, true).parse_document();
    let _ = parser::Parser::from_lines(scanner::scan(t), o.strict).with_indent_size(o.indent).parse_document();
    #[cfg(not(feature = "set-alloc"))]
    {
        let _ = parser::parse_to_value(t);
    }
}
fn typed_targets(t: &str, o: &Options) {
    let _ = api::decode_as::<()>(t, o);
    let _ = api::decode_as::<bool>(t, o);
    let _ = api::decode_as::<u8>(t, o);
    let _ = api::decode_as::<i64>(t, o);
    let _ = api::decode_as::<u64>(t, o);
    let _ = api::decode_as::<i128>(t, o);
    let _ = api::decode_as::<f32>(t, o);
    let _ = api::decode_as::<f64>(t, o);
    let _ = api::decode_as::<char>(t, o);
    let _ = api::decode_as::<String>(t, o);
    let _ = api::decode_as::<Option<String>>(t, o);
    let _ = api::decode_as::<Vec<Value>>(t, o);
    let _ = api::decode_as::<Vec<String>>(t, o);
    let _ = api::decode_as::<Vec<Vec<i64>>>(t, o);
    let _ = api::decode_as::<(String, f64, Option<bool>)>(t, o);
    let _ = api::decode_as::<[u16; 2]>(t, o);
    let _ = api::decode_as::<BTreeMap<String, Value>>(t, o);
    let _ = api::decode_as::<HashMap<i32, String>>(t, o);
    let _ = api::decode_as::<BTreeMap<char, Vec<u8>>>(t, o);
    let _ = api::decode_as::<Vec<BTreeMap<String, String>>>(t, o);
    let _ = api::decode_as::<BTreeMap<String, Vec<BTreeMap<String, f64>>>>(t, o);
    let _ = api::decode_as::<serde::de::IgnoredAny>(t, o);
    let _ = api::decode_as::<std::net::IpAddr>(t, o);
    let _ = api::decode_as::<std::time::Duration>(t, o);
    super::ser::decode_derived(t, o);
}

fn c07_texts(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, o) = soup::text(s, c);
    let t = worsen(s, t);
    let o = any_options(s, o);
    c.repr = format!("{} {:?}", opts_text(&o), t);
    c.nontrivial = t.contains('\n');
    c.checks += 16;
    everything(&t, &o);
    if s.chance(1, 3) {
        c.checks += 30;
        typed_targets(&t, &o);
    }
    Ok(())
}

fn c07_typed(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (ty, v) = typed_value(s, true);
    let o = fold_options(s);
    // the value's own text, or another layout of it, or something else altogether
    let t = match s.weighted(&[4, 4, 1]) {
        0 => api::encode(&v, &o).unwrap_or_default(),
        1 => {
            let json = serde_json::to_value(&v).unwrap_or(Value::Null);
            let st = doc::style(s);
            doc::layout(s, &json, st, o.delimiter, o.indent.max(1)).spaced(s, 10)
        }
        _ => soup::text(s, c).0,
    };
    let t = match s.weighted(&[1, 2]) {
        0 => t,
        _ => {
            let m = soup::mutate(s, &t, o.indent.max(1));
            worsen(s, m)
        }
    };
    let o = any_options(s, o);
    let mut g = Gen { budget: 6, any_float: true };
    let ty2 = mutate_ty(s, &mut g, &ty);
    c.repr = format!("{} {ty:?} {:?}", opts_text(&o), t);
    c.nontrivial = t.contains('\n');
    c.checks += 3;
    let _ = with_schema(&ty, || api::decode_as::<Dyn>(&t, &o));
    let _ = with_schema(&ty2, || api::decode_as::<Dyn>(&t, &o));
    if s.chance(1, 4) {
        typed_targets(&t, &o);
    }
    Ok(())
}

const LEVELS: usize = 128;
fn c07_deep(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let n = 1 + s.below(LEVELS - 1);
    let n = if s.chance(1, 2) { LEVELS - s.below(4) } else { n };
    let ind = *s.pick(&[2, 1, 4]);
    let mut o = Options { indent: ind, ..Default::default() };
    o.strict = !s.chance(1, 3);
    let mut t = String::new();
    let kind = s.below(10);
    let mut depth = 0;
    let line = |t: &mut String, d: usize, x: &str| {
        t.push_str(&" ".repeat(d * ind));
        t.push_str(x);
        t.push('\n');
    };
    match kind {
        0 => (0..n).for_each(|i| line(&mut t, i, "a:")),
        1 => {
            line(&mut t, 0, "[1]:");
            (1..n).for_each(|i| line(&mut t, i, "- [1]:"));
            line(&mut t, n, "- 1");
        }
        2 => {
            line(&mut t, 0, "[1]:");
            (0..n / 2).for_each(|i| line(&mut t, 2 * i + 1, "- a[1]:"));
            line(&mut t, n / 2 * 2 + 1, "- x");
        }
        3 => {
            line(&mut t, 0, "[1]:");
            line(&mut t, 1, &format!("{}1", "- ".repeat(n)));
        }
        4 | 5 => {
            let key = vec!["a"; n].join(".");
            line(&mut t, 0, &format!("{key}: 1"));
            line(&mut t, 0, &format!("{key}.b: 1"));
            o.expand_paths = ExpandPaths::Safe;
        }
        6 => {
            // quotes, brackets and braces without end
            line(&mut t, 0, &s.pick::<&str>(&["\"", "[", "{", "[1", "\\", "]", "}", "a[", "a{", "[1]{", ":", "- ", "-", "\"\\", "a.", ","]).repeat(n));
        }
        7 => (0..n).for_each(|i| line(&mut t, i, "-")),
        _ => {
            // every kind of level, in any order
            for _ in 0..n {
                match s.below(6) {
                    0 => {
                        line(&mut t, depth, "a:");
                        depth += 1;
                    }
                    1 => {
                        line(&mut t, depth, "b[1]:");
                        line(&mut t, depth + 1, "-");
                        depth += 2;
                    }
                    2 => {
                        line(&mut t, depth, "c[2]:");
                        line(&mut t, depth + 1, "- 5");
                        line(&mut t, depth + 1, "- d: 1");
                        depth += 2;
                    }
                    3 => {
                        line(&mut t, depth, "e.f[1]:");
                        line(&mut t, depth + 1, "- g:");
                        depth += 3;
                    }
                    4 => {
                        line(&mut t, depth, "h: 1");
                        line(&mut t, depth, "i:");
                        depth += 1;
                    }
                    _ => {
                        line(&mut t, depth, "j[1]:");
                        line(&mut t, depth + 1, "- k[1]:");
                        line(&mut t, depth + 3, "-");
                        depth += 4;
                    }
                }
                if depth > LEVELS {
                    break;
                }
            }
            line(&mut t, depth, "z: 1");
            if s.chance(1, 2) {
                o.expand_paths = ExpandPaths::Safe;
            }
        }
    }
    if s.chance(1, 3) {
        t = soup::mutate(s, &t, ind);
    }
    c.repr = format!("{} {:?}", opts_text(&o), t);
    c.nontrivial = n > 32;
    c.checks += 16;
    // the size of a thread's stack unless the program says otherwise
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            everything(&t, &o);
            typed_targets(&t, &o);
        })
        .unwrap()
        .join()
        .map_err(|_| "panicked on a 2 MB stack".to_string())
}

fn c07_large(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let o = any_options(s, o);
    let total = 20_000 + s.below(280_000);
    let mut t = String::new();
    match s.below(8) {
        0 => (0..).take_while(|i| i * 12 < total).for_each(|i| t.push_str(&format!("k{i}: v{i}\n"))),
        1 => {
            let n = total / 8;
            t.push_str(&format!("[{n}]{{a,b}}:\n"));
            (0..n).for_each(|i| t.push_str(&format!("  {i},x\n")));
        }
        2 => {
            let n = total / 8;
            t.push_str(&format!("[{n}]:\n"));
            (0..n).for_each(|i| t.push_str(&format!("  - {i}\n")));
        }
        3 => {
            let n = total / 3;
            t.push_str(&format!("[{n}]: {}", vec!["a"; n].join(",")));
        }
        4 => t = format!("a: \"{}\"", "\\u0041\\n\\\"".repeat(total / 10)),
        5 => {
            let u = s.pick::<&str>(&["\"", "[", "{", ":", "-", "- ", ",", "|", "\t", " ", "\n", "\r\n", "\\", "a", "9", ".", "é", "[1]", "[1]{a}:", "a:\n", "- a\n", "- - ", "a.b: 1\n", "\"a\": 1\n", "\"\\"]);
            t = u.repeat(total / u.len());
        }
        6 => {
            while t.len() < total {
                let (x, _) = soup::text(s, c);
                t.push_str(&x);
                t.push('\n');
                if s.taken.len() > 50_000 {
                    break;
                }
            }
        }
        _ => {
            let n = total / 30;
            (0..n).for_each(|i| t.push_str(&format!("a{}.b{}.c{}: {i}\n", i % 7, i % 50, i)));
        }
    }
    c.repr = format!("{} {} bytes {:x} {:?}", opts_text(&o), t.len(), hash_str(&t), clip(&t, 120));
    c.nontrivial = true;
    c.checks += 16;
    everything(&t, &o);
    Ok(())
}

/// Megabytes of one construct: work that grows with the square of the size does not end in time.
/// No expansion of many keys (it is known to take such time, see DESIGN.md).
fn c07_huge(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let d = refmodel::delim_char(o.delimiter);
    let (sym, n) = (if d == ',' { String::new() } else { d.to_string() }, 1_500_000 + s.below(2_500_000));
    let ind = " ".repeat(o.indent);
    let rep = |u: &str| u.repeat(n / u.len());
    let cells = |k: usize| vec!["1"; k].join(&d.to_string());
    let cols = || (0..n / 16).map(|i| format!("c{i}")).collect::<Vec<_>>().join(&d.to_string());
    let key = if s.chance(1, 2) { "a: " } else { "" };
    let shape = s.below(24);
    let (t, many_keys) = match shape {
        0 => (format!("{key}\"{}\"", rep(s.pick::<&str>(&["x", "é", "x y, "]))), false),
        1 => (format!("{key}\"{}\"", rep(s.pick::<&str>(&["\\n", "\\u00e9", "\\\"", "\\\\", "a\\t"]))), false),
        2 => (format!("{key}{}", rep(s.pick::<&str>(&["x", "é", "x y ", "- ", "-"]))), false),
        3 => (format!("{key}{}", rep("9")), false),
        4 => (format!("{key}{}{}", s.pick::<&str>(&["0.", "1e", "-", "0", "1e-"]), rep("9")), false),
        5 => (format!("{}: 1", rep(s.pick::<&str>(&["k", "k ", "é"]))), false),
        6 => (format!("\"{}\": 1", rep(s.pick::<&str>(&["k", "k.", "\\n", "k:"]))), false),
        7 => (format!("[{}{sym}]: {}", n / 2, cells(n / 2)), false),
        8 => (format!("[{}{sym}]{{a{d}b}}:\n{}", n / 6, format!("{ind}1{d}x\n").repeat(n / 6)), false),
        9 => (format!("[{}]:\n{}", n / 6, format!("{ind}- 1\n").repeat(n / 6)), false),
        10 => (format!("[{}]:\n{}", n / 16, format!("{ind}- a: 1\n{ind}{ind}b[1]: 2\n").repeat(n / 16)), false),
        11 => (format!("[{}]:\n{}", n / 16, format!("{ind}- a[1]{{b}}:\n{ind}{ind}{ind}2\n").repeat(n / 16)), false),
        12 => (format!("[2{sym}]{{{}}}:\n{ind}{c}\n{ind}{c}", cols(), c = cells(n / 16)), true),
        13 => ((0..n / 16).map(|i| format!("k{i}: 1\n")).collect(), true),
        14 => ((0..n / 20).map(|i| format!("k{i}:\n{ind}a: 1\n")).collect(), true),
        15 => ((0..n / 20).map(|i| format!("k{i}[2{sym}]: a{d}b\n")).collect(), true),
        16 => (format!("a: 1\n{}b: 2", rep("\n")), false),
        17 => (format!("a: 1\n{}b: 2", rep(&format!("{}\n", " ".repeat(1 + s.below(40))))), false),
        18 => (format!("a[2]:\n{ind}- 1\n{}{ind}- 2", rep("\n")), false),
        19 => (rep(s.pick::<&str>(&["\"", "[", "{", ":", "-", "- ", ",", "|", "\t", "\\", "a", ".", "[1]", "[1]{a}:", "\"\\", "@"])), false),
        20 => (rep("a[1]:\n  - b\n"), false),
        21 => (format!("a[1]:\n{ind}- {}", (0..n / 20).map(|i| format!("k{i}: 1\n{ind}{ind}")).collect::<String>().trim_end()), true),
        22 => (format!("a[{}{sym}]{{b}}:\n{}", n / 16, (0..n / 16).map(|i| format!("{ind}\"v{i}{d} \\\"\"\n")).collect::<String>()), false),
        _ => (format!("a[3{sym}]: \"{}\"{d}{}{d}\"{}\"", rep("x:[{").trim_end(), n, rep("\\\"")), false),
    };
    c.repr = format!("{} shape {shape} {} bytes {:x} {:?}", opts_text(&o), t.len(), hash_str(&t), clip(&t, 80));
    c.nontrivial = true;
    c.checks += 4;
    let strict = api::with(&o, |o| o.strict = true);
    let lenient = api::with(&o, |o| o.strict = false);
    let expanding = api::with(&o, |o| if !many_keys { o.expand_paths = ExpandPaths::Safe });
    c.label(if api::decode(&t, &strict).is_ok() { "accepted" } else { "refused" });
    let _ = api::decode(&t, &lenient);
    let _ = api::decode(&t, &expanding);
    let _ = api::decode_as::<serde::de::IgnoredAny>(&t, &strict);
    Ok(())
}
