//! C24: the public building blocks do what the entry points do.

use crate::api;
use crate::engine::*;
use crate::generate::*;
use crate::refmodel::{self, Quote, delim_char, same};
use crate::runner::Prop;
use crate::soup;
use serde::Deserialize;
use serde_json::{Map, Value};
use toon::decode::{parser, path_expand, scanner, validation};
use toon::encode::{encoders, normalize, primitives, writer::LineWriter};
use toon::{Delimiter, ExpandPaths, Options};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "formatting: a case is a string, a number, field names and a length with a delimiter, given to every public formatting function and compared with the reference; non-trivial: the string needs quoting or is not ASCII. fields, at-an-indent: a JSON value with encode options written by the public encoders at some indent, compared with the entry point's text moved there; non-trivial: more than one line. tables: an array given to is_tabular_array; non-trivial: of objects. lines: a sequence of LineWriter calls; non-trivial: more than one. decoding: a text and decode options through scan, validation, parser, path expansion and Deserializer, compared with decode_from_str; non-trivial: more than one line. indentation: a text given to both validators, compared with a description of the rule; non-trivial: an indented line. Distinct by case text.",
        subs: vec![
            Sub { name: "formatting", f: formatting, quick: 300_000, thorough: 8_000_000, max_size: 60 },
            Sub { name: "fields", f: fields, quick: 150_000, thorough: 4_000_000, max_size: 80 },
            Sub { name: "at-an-indent", f: at_an_indent, quick: 150_000, thorough: 4_000_000, max_size: 80 },
            Sub { name: "tables", f: tables, quick: 300_000, thorough: 8_000_000, max_size: 60 },
            Sub { name: "lines", f: lines, quick: 300_000, thorough: 6_000_000, max_size: 60 },
            Sub { name: "decoding", f: decoding, quick: 400_000, thorough: 10_000_000, max_size: 70 },
            Sub { name: "indentation", f: indentation, quick: 400_000, thorough: 10_000_000, max_size: 70 },
        ],
        known: vec![],
    }]
}

fn expect<T: PartialEq + std::fmt::Debug>(c: &mut Case, what: &str, got: T, want: T) -> Result<(), String> {
    c.checks += 1;
    if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}")) }
}

fn formatting(s: &mut Src, c: &mut Case) -> Result<(), String> {
    use primitives as p;
    let d = *s.pick(&[Delimiter::Comma, Delimiter::Tab, Delimiter::Pipe]);
    let x = if s.chance(1, 4) { any_key(s) } else { any_string(s) };
    let n = s.count(8);
    let names: Vec<String> = (0..n).map(|_| refmodel::key_text(&any_key(s))).collect();
    let len = match s.below(3) {
        0 => s.below(12),
        1 => s.below(100_000),
        _ => s.u64() as usize,
    };
    let f = any_f64(s);
    c.repr = format!("{d:?} {x:?} {names:?} {len} {f:?}");
    let rule = refmodel::quote_rule(&x, d);
    c.nontrivial = rule != Quote::MustNot || !x.is_ascii();
    let needs = p::needs_quotes(&x, d);
    if rule != Quote::Either {
        expect(c, "needs_quotes", needs, rule == Quote::Must)?;
    }
    expect(c, "format_string", p::format_string(&x, d), if needs { refmodel::quoted(&x) } else { x.clone() })?;
    expect(c, "escape_and_quote", p::escape_and_quote(&x), refmodel::quoted(&x))?;
    expect(c, "format_key", p::format_key(&x), refmodel::key_text(&x))?;
    let ch = delim_char(d);
    expect(c, "delimiter_char", p::delimiter_char(d), ch)?;
    expect(c, "delimiter_symbol", p::delimiter_symbol(d), (ch != ',').then_some(ch))?;
    let sym = if ch == ',' { String::new() } else { ch.to_string() };
    let names_text = names.join(&ch.to_string());
    expect(c, "format_bracket_segment", p::format_bracket_segment(len, d), format!("[{len}{sym}]"))?;
    expect(c, "format_fields_segment", p::format_fields_segment(&names, d), format!("{{{names_text}}}"))?;
    expect(c, "format_inline_array_header", p::format_inline_array_header(len, d), format!("[{len}{sym}]: "))?;
    expect(c, "format_tabular_header", p::format_tabular_header(len, &names, d), format!("[{len}{sym}]{{{names_text}}}:"))?;
    expect(c, "format_expanded_array_header", p::format_expanded_array_header(len, d), format!("[{len}{sym}]:"))?;
    expect(c, "format_bool", (p::format_bool(true), p::format_bool(false)), ("true", "false"))?;
    expect(c, "format_null", p::format_null(), "null")?;
    if !refmodel::is_tie(f) {
        expect(c, "format_f64", p::format_f64(f), refmodel::float_text(f))?;
    }
    Ok(())
}

fn any_value(s: &mut Src) -> Value {
    match s.below(4) {
        0 => value(s, cfg(s)),
        1 => super::enc::shape(s),
        2 => near_table(s, cfg(s)),
        _ => super::enc::chainy(s, false),
    }
}
fn far(s: &mut Src) -> usize {
    match s.below(4) {
        0 => 0,
        1 => s.below(12),
        2 => s.below(4) * 2,
        _ => s.below(150),
    }
}
/// The text with every line moved to the right.
fn moved(text: &str, by: usize) -> String {
    if text.is_empty() {
        return String::new();
    }
    text.split('\n').map(|l| format!("{}{l}", " ".repeat(by))).collect::<Vec<_>>().join("\n")
}
fn fields(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_options(s);
    let by = far(s);
    let m = match any_value(s) {
        Value::Object(m) => m,
        v => Map::from_iter([(any_key(s), v)]),
    };
    c.repr = format!("{} at {by}: {}", opts_text(&o), Value::Object(m.clone()));
    library_call();
    // every field of the object, told of all its keys
    let whole = api::encode(&m, &o)?;
    c.nontrivial = whole.contains('\n');
    let mut keys: Vec<String> = m.keys().cloned().collect();
    if s.chance(1, 2) {
        keys.reverse();
    }
    let mut w = LineWriter::new();
    for (k, v) in &m {
        encoders::encode_object_field_with_siblings(k, v, &mut w, &o, by, &keys).map_err(|e| e.to_string())?;
    }
    expect(c, "encode_object_field_with_siblings for every field", w.into_string(), moved(&whole, by))?;
    // one of them alone
    if !m.is_empty() {
        let at = s.below(m.len());
        let (k, v) = m.iter().nth(at).unwrap();
        let alone = api::encode(&Map::from_iter([(k.clone(), v.clone())]), &o)?;
        let mut w = LineWriter::default();
        encoders::encode_object_field(k, v, &mut w, &o, by).map_err(|e| e.to_string())?;
        expect(c, "encode_object_field", w.into_string(), moved(&alone, by))?;
    }
    Ok(())
}
fn at_an_indent(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = fold_options(s);
    let by = far(s);
    let v = any_value(s);
    c.repr = format!("{} at {by}: {v}", opts_text(&o));
    library_call();
    let whole = api::encode(&v, &o)?;
    c.nontrivial = whole.contains('\n');
    let mut w = LineWriter::new();
    w.line(0, "before");
    encoders::encode_value(&v, &mut w, &o, by).map_err(|e| e.to_string())?;
    let mut want = String::from("before");
    if !(whole.is_empty() && v.is_object()) {
        want += "\n";
        want += &moved(&whole, by);
    }
    expect(c, "encode_value", w.into_string(), want)?;
    let n = normalize::normalize_value(&v);
    expect(c, "normalize_value (order)", n.to_string(), v.to_string())?;
    expect(c, "normalize_value", n, v)
}
fn tables(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let v = if s.chance(1, 4) { any_value(s) } else { near_table(s, cfg(s)) };
    let Value::Array(a) = v else { return Ok(()) };
    c.repr = Value::Array(a.clone()).to_string();
    c.nontrivial = !a.is_empty() && a.iter().all(Value::is_object);
    let want: Option<Vec<String>> = refmodel::table_columns(&a).map(|k| k.into_iter().cloned().collect());
    c.label(if want.is_some() { "table" } else { "no-table" });
    expect(c, "is_tabular_array", encoders::is_tabular_array(&a), want)
}
fn lines(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let mut w = LineWriter::new();
    let mut want: Vec<String> = Vec::new();
    let n = s.count(12);
    for _ in 0..n {
        let by = far(s);
        let pad = " ".repeat(by);
        let x = any_string(s);
        match s.below(4) {
            0 => {
                w.line(by, &x);
                want.push(format!("{pad}{x}"));
            }
            1 => {
                let k = any_key(s);
                w.line_kv(by, &k, &x);
                want.push(format!("{pad}{k}: {x}"));
            }
            2 => {
                w.line_list_item(by, &x);
                want.push(format!("{pad}- {x}"));
            }
            _ => {
                w.line_key_only(by, &x);
                want.push(format!("{pad}{x}:"));
            }
        }
    }
    c.repr = format!("{want:?}");
    c.nontrivial = want.len() > 1;
    expect(c, "LineWriter", w.into_string(), want.join("\n"))
}

fn composed(t: &str, o: &Options) -> Result<Value, api::DecErr> {
    let plain = |m: String| api::DecErr { line: None, msg: m };
    let ls = scanner::scan(t);
    if o.strict {
        let raw: Vec<&str> = t.split('\n').collect();
        validation::validate_indentation_with_size(&ls, &raw, o.indent).map_err(|e| api::DecErr { line: Some(e.line), msg: e.message })?;
    }
    let mut v = parser::parse_to_internal_value_with_options(ls, o).map_err(api::err)?;
    if o.expand_paths == ExpandPaths::Safe {
        v = path_expand::expand_paths(v, o.strict).map_err(plain)?;
    }
    Value::deserialize(toon::de::Deserializer::from_value(v)).map_err(|e| plain(e.to_string()))
}
fn decoding(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, mut o) = if s.chance(1, 3) {
        let v = super::enc::chainy(s, true);
        let o = options(s);
        (api::encode(&v, &o)?, o)
    } else {
        soup::text(s, c)
    };
    o.strict = s.chance(1, 2);
    if s.chance(1, 2) {
        o.expand_paths = ExpandPaths::Safe;
    }
    c.repr = format!("{} {t:?}", opts_text(&o));
    c.nontrivial = t.contains('\n');
    library_call();
    let want = api::decode(&t, &o);
    let got = composed(&t, &o);
    c.label(if want.is_ok() { "accepted" } else { "rejected" });
    c.checks += 1;
    match (want, got) {
        (Ok(a), Ok(b)) => same(&a, &b).map_err(|e| format!("decode_from_str and the parts: {e}\n{t}")),
        (Err(a), Err(b)) if a.line == b.line => Ok(()),
        (Err(a), Err(b)) => Err(format!("the entry point reports line {:?}, the parts {:?}\n{t}", a.line, b.line)),
        (Ok(a), Err(b)) => Err(format!("the entry point gives {a}, the parts fail: {b}\n{t}")),
        (Err(a), Ok(b)) => Err(format!("the entry point fails ({a}), the parts give {b}\n{t}")),
    }
}
fn indentation(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, o) = soup::text(s, c);
    let size = if s.chance(1, 20) { 0 } else { o.indent };
    c.repr = format!("{size} {t:?}");
    let ls = scanner::scan(&t);
    let raw: Vec<&str> = if s.chance(1, 2) { t.split('\n').collect() } else { t.lines().collect() };
    let unit = if size == 0 { 2 } else { size };
    let lead = |l: &str| l.chars().take_while(|c| *c == ' ').count();
    let first = |bad: &dyn Fn(&str) -> bool| t.split('\n').position(|l| l.chars().any(|c| c != ' ') && bad(l)).map(|i| i + 1);
    let tab = |l: &str| l[lead(l)..].starts_with('\t');
    c.nontrivial = t.split('\n').any(|l| l.starts_with([' ', '\t']));
    let got = validation::validate_indentation_with_size(&ls, &raw, size).err().map(|e| e.line);
    expect(c, "line found by validate_indentation_with_size", got, first(&|l| tab(l) || lead(l) % unit != 0))?;
    let got = validation::validate_indentation(&ls).err().map(|e| e.line);
    expect(c, "line found by validate_indentation", got, first(&|l| lead(l) % 2 != 0))
}
