//! Decoder properties over valid documents: C05 (layout variants), C08, C09, C14.

use crate::api;
use crate::older;
use crate::doc::{self, Doc};
use crate::engine::{Case, Src, Sub};
use crate::generate::*;
use crate::props::enc::shape;
use crate::refmodel::{self, same};
use crate::runner::Prop;
use crate::soup;
use serde_json::Value;
use toon::{Delimiter, Options};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "A case is a JSON value laid out as a valid document with random layout choices (quoting, escapes, number spellings, array forms, column order, per-array delimiters, blanks); strict and lenient decoding must give the value. older-forms: a document of tables headed @ and lists without headers, made along with its value (all non-trivial). loose: lenient decoding of a document with blank lines anywhere and blocks of any depth. Non-trivial otherwise: the document differs from the canonical text of its value. Distinct by document.",
            subs: vec![
                Sub { name: "any-value", f: c05_any, quick: 300_000, thorough: 8_000_000, max_size: 100 },
                Sub { name: "small-shapes", f: c05_shapes, quick: 500_000, thorough: 10_000_000, max_size: 60 },
                Sub { name: "older-forms", f: c05_older, quick: 150_000, thorough: 3_000_000, max_size: 60 },
                Sub { name: "loose", f: c05_loose, quick: 200_000, thorough: 5_000_000, max_size: 70 },
            ],
            known: vec![],
        },
        Prop {
            id: "C06",
            rule: "broken, older-broken: a case is a valid document (random layout; in the older forms) broken in one defined way; strict decoding must reject it. no-silent-drop: a document whose keys and strings are unique markers, mutated in structure; if strict decoding accepts it, every marker is in the result. Non-trivial: a corruption applied, or an accepted mutant. Distinct by document.",
            subs: vec![
                Sub { name: "broken", f: c06_broken, quick: 800_000, thorough: 16_000_000, max_size: 70 },
                Sub { name: "older-broken", f: c06_older, quick: 200_000, thorough: 4_000_000, max_size: 60 },
                Sub { name: "no-silent-drop", f: c06_drop, quick: 1_500_000, thorough: 30_000_000, max_size: 70 },
                Sub { name: "no-silent-drop-soup", f: c06_drop_soup, quick: 1_500_000, thorough: 30_000_000, max_size: 70 },
            ],
            known: vec![],
        },
        Prop {
            id: "C15",
            rule: "A case is a valid document (random layout and blank lines) broken in one defined way on one line; the reported line must be one the corruption allows, in broken-spaced with blank lines anywhere in lenient mode. Non-trivial: a corruption applied and the document was rejected. Distinct by document.",
            subs: vec![
                Sub { name: "broken", f: c15_broken, quick: 800_000, thorough: 16_000_000, max_size: 70 },
                Sub { name: "older-broken", f: c15_older, quick: 200_000, thorough: 4_000_000, max_size: 60 },
                Sub { name: "broken-spaced", f: c15_spaced, quick: 300_000, thorough: 8_000_000, max_size: 70 },
                Sub { name: "within-document", f: c15_within, quick: 500_000, thorough: 10_000_000, max_size: 70 },
            ],
            known: vec![],
        },
        Prop {
            id: "C08",
            rule: "A case is a text (valid, broken, mutated or random) with decode options; strict and lenient decoding are compared. Non-trivial: strict decoding accepts a text of more than one line. Distinct by text and options.",
            subs: vec![Sub { name: "texts", f: c08, quick: 1_200_000, thorough: 30_000_000, max_size: 70 }],
            known: vec![],
        },
        Prop {
            id: "C09",
            rule: "A case is a text; if strict decoding accepts it, the decoded value is encoded, decoded and encoded again under random encode options. Non-trivial: the text is accepted and holds a container. Distinct by text and options.",
            subs: vec![Sub { name: "texts", f: c09, quick: 1_000_000, thorough: 25_000_000, max_size: 70 }],
            known: vec![],
        },
        Prop {
            id: "C14",
            rule: "A case is a text decoded under one set of decode options and many settings of everything else (delimiter, folding, flatten depth, string or reader, dynamic or self-describing typed target); and a value encoded under two layouts. histories: a sequence of decoding and encoding calls, some of which fail, run in order, in another order with repetitions, and on two threads at once; each call gives what it gave the first time (non-trivial: one call fails and two succeed). Non-trivial otherwise: the text is accepted and has more than one line. Distinct by text and options.",
            subs: vec![
                Sub { name: "texts", f: c14_texts, quick: 300_000, thorough: 8_000_000, max_size: 70 },
                Sub { name: "layouts", f: c14_layouts, quick: 250_000, thorough: 6_000_000, max_size: 90 },
                Sub { name: "histories", f: c14_history, quick: 60_000, thorough: 1_500_000, max_size: 60 },
            ],
            known: vec![],
        },
    ]
}

fn base_doc(s: &mut Src) -> (Doc, Options) {
    let o = options(s);
    let v = if s.chance(1, 2) { value(s, cfg(s)) } else { shape(s) };
    let st = doc::style(s);
    let d = doc::layout(s, &v, st, o.delimiter, o.indent);
    (d, o)
}
fn broken(s: &mut Src, c: &mut Case) -> Option<(doc::Broken, String, Options)> {
    let (d, o) = base_doc(s);
    let b = d.break_one(s)?;
    c.nontrivial = true;
    c.label(b.what);
    let mut t = b.lines.join("\n");
    if s.chance(1, 4) {
        t.push('\n');
    }
    c.repr = format!("{} {} {:?}", b.what, opts_text(&o), t);
    Some((b, t, o))
}
fn c06_broken(s: &mut Src, c: &mut Case) -> Result<(), String> {
    match broken(s, c) {
        Some(x) => must_reject(x),
        None => Ok(()),
    }
}
fn c06_older(s: &mut Src, c: &mut Case) -> Result<(), String> {
    match older_broken(s, c) {
        Some(x) => must_reject(x),
        None => Ok(()),
    }
}
fn older_broken(s: &mut Src, c: &mut Case) -> Option<(doc::Broken, String, Options)> {
    let o = options(s);
    let b = older::layout(s, o.indent).break_one(s)?;
    c.nontrivial = true;
    c.label(b.what);
    let t = b.lines.join("\n");
    c.repr = format!("{} {} {:?}", b.what, opts_text(&o), t);
    Some((b, t, o))
}
fn must_reject((b, t, o): (doc::Broken, String, Options)) -> Result<(), String> {
    match api::decode(&t, &o) {
        Err(_) => Ok(()),
        Ok(v) => Err(format!("strict decoding accepts a document with {} (line {:?}) as {}\n{t}", b.what, b.allowed, v)),
    }
}
fn c15_broken(s: &mut Src, c: &mut Case) -> Result<(), String> {
    match broken(s, c) {
        Some(x) => right_line(x, c),
        None => Ok(()),
    }
}
/// Lenient decoding skips blank lines, inside arrays too; they still count as lines.
fn c15_spaced(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let Some((b, _, o)) = (if s.chance(1, 5) { older_broken(s, c) } else { broken(s, c) }) else { return Ok(()) };
    c.nontrivial = false;
    if b.strict_only {
        return Ok(());
    }
    let p = *s.pick(&[10, 30, 60]);
    let mut lines = Vec::new();
    let mut at = vec![0];
    for l in &b.lines {
        doc::blanks(s, p, &mut lines);
        lines.push(l.clone());
        at.push(lines.len());
    }
    let b = doc::Broken { allowed: b.allowed.iter().map(|l| at.get(*l).copied().unwrap_or(lines.len())).collect(), lines, ..b };
    let t = b.lines.join("\n");
    let o = api::with(&o, |o| o.strict = false);
    c.repr = format!("{} {} {:?}", b.what, opts_text(&o), t);
    right_line((b, t, o), c)
}
fn c15_older(s: &mut Src, c: &mut Case) -> Result<(), String> {
    match older_broken(s, c) {
        Some(x) => right_line(x, c),
        None => Ok(()),
    }
}
fn right_line((b, t, o): (doc::Broken, String, Options), c: &mut Case) -> Result<(), String> {
    c.nontrivial = false;
    for strict in [true, false] {
        // lenient decoding reads what only strict decoding forbids, possibly as another structure
        if !strict && b.strict_only || strict && !o.strict {
            continue;
        }
        let o = api::with(&o, |o| o.strict = strict);
        if let Err(e) = api::decode(&t, &o) {
            c.nontrivial = true;
            c.checks += 1;
            match e.line {
                None => return Err(format!("{}: the error names no line (strict={strict}): {e}\n{t}", b.what)),
                Some(l) if !b.allowed.contains(&l) => return Err(format!("{}: the error names line {l}, expected {:?} (strict={strict}): {e}\n{t}", b.what, b.allowed)),
                Some(l) => shows_line(&e, l)?,
            }
        }
    }
    Ok(())
}
/// The printed error gives the line, too.
fn shows_line(e: &api::DecErr, l: usize) -> Result<(), String> {
    if e.msg.split(|c: char| !c.is_ascii_digit()).any(|d| d == l.to_string()) { Ok(()) } else { Err(format!("the error is for line {l} but reads {:?}", e.msg)) }
}

fn c05_any(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let v = value(s, cfg(s));
    c05(s, c, v)
}
fn c05_shapes(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let v = shape(s);
    c05(s, c, v)
}
fn c05_older(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let d = older::layout(s, o.indent);
    let mut t = d.text();
    if s.chance(1, 4) {
        t.push('\n');
    }
    c.repr = format!("{} {:?}", opts_text(&o), t);
    c.nontrivial = true;
    label_value(&d.want, c);
    for strict in [true, false] {
        let o = api::with(&o, |o| o.strict = strict);
        let got = api::decode(&t, &o).map_err(|e| format!("rejected (strict={strict}): {e}\n{t}"))?;
        same(&d.want, &got).map_err(|e| format!("(strict={strict}) {e}\n{t}"))?;
        c.checks += 1;
    }
    Ok(())
}
fn c05(s: &mut Src, c: &mut Case, v: Value) -> Result<(), String> {
    let o = options(s);
    let st = doc::style(s);
    let dd = if s.chance(1, 2) { o.delimiter } else { Delimiter::Comma };
    let d = doc::layout(s, &v, st, dd, o.indent);
    let p = *s.pick(&[0, 0, 20, 50]);
    let t = d.spaced(s, p);
    c.repr = format!("{} {:?}", opts_text(&o), t);
    c.nontrivial = t != refmodel::encode(&v, o.delimiter, o.indent, refmodel::Fold { on: false, depth: None });
    label_value(&v, c);
    label_doc(&d, c);
    for strict in [true, false] {
        let o = api::with(&o, |o| o.strict = strict);
        let got = api::decode(&t, &o).map_err(|e| format!("rejected (strict={strict}): {e}\n{t}"))?;
        same(&d.want, &got).map_err(|e| format!("(strict={strict}) {e}\n{t}"))?;
        c.checks += 1;
    }
    Ok(())
}
/// Lenient decoding: blank lines inside arrays, and blocks of any depth.
fn c05_loose(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (d, o) = base_doc(s);
    let p = *s.pick(&[0, 20, 50]);
    let t = d.loose(s, p);
    let o = api::with(&o, |o| o.strict = false);
    c.repr = format!("{} {:?}", opts_text(&o), t);
    c.nontrivial = t != d.text();
    label_value(&d.want, c);
    label_doc(&d, c);
    let got = api::decode(&t, &o).map_err(|e| format!("rejected: {e}\n{t}"))?;
    same(&d.want, &got).map_err(|e| format!("{e}\n{t}"))
}
pub fn label_doc(d: &Doc, c: &mut Case) {
    let mut seen = std::collections::BTreeSet::new();
    for l in &d.lines {
        if let Some(h) = &l.header {
            seen.insert(match (h.form, l.hyphen) {
                (doc::Form::Inline, false) => "form:inline",
                (doc::Form::Inline, true) => "form:inline-on-hyphen",
                (doc::Form::List, false) => "form:list",
                (doc::Form::List, true) => "form:list-on-hyphen",
                (doc::Form::Table, false) => "form:table",
                (doc::Form::Table, true) => "form:table-on-hyphen",
            });
            seen.insert(match h.delim {
                ',' => "delim:comma",
                '|' => "delim:pipe",
                _ => "delim:tab",
            });
        }
        if l.text.contains("\\u") {
            seen.insert("escape-u");
        }
    }
    for x in seen {
        c.label(x);
    }
}

/// The columns of a table declared with no rows denote nothing.
fn without_zero_row_columns(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(p) = rest.find("[0") {
        let (a, b) = rest.split_at(p + 2);
        out.push_str(a);
        rest = b;
        let close = b.trim_start_matches([',', '\t', '|', ' ', '0']);
        let close = close.strip_prefix(']').map(|c| c.trim_start_matches(' '));
        if let Some(cols) = close.and_then(|c| c.strip_prefix('{')) {
            let line = cols.split('\n').next().unwrap_or("");
            if let Some(e) = line.find('}') {
                rest = &cols[e..];
            }
        }
    }
    out.push_str(rest);
    out
}
/// Whether an object of the document, or a row of column names, has a key twice (the later value
/// wins, as in JSON). Judged by indentation alone: two lines with the same marker as key, at the
/// same depth, with nothing less deep between them.
fn repeats_a_key(t: &str, indent: usize) -> bool {
    let lines: Vec<(usize, usize, &str)> = t
        .split('\n')
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let raw = l.len() - l.trim_start_matches(' ').len();
            let mut body = &l[raw..];
            let raw = raw / indent.max(1);
            let mut eff = raw;
            while let Some(b) = body.strip_prefix("- ") {
                eff += 1;
                body = b.trim_start_matches(' ');
            }
            (raw, eff, body)
        })
        .collect();
    let key = |b: &str| {
        if b.starts_with(':') || b.starts_with('[') {
            return Some(String::new()); // read as the empty key
        }
        let b = b.strip_prefix('"').unwrap_or(b);
        b.strip_prefix('q').and_then(|b| b.find('q')).map(|e| b[..e].to_string())
    };
    for i in 0..lines.len() {
        let (_, eff, b) = lines[i];
        if let (Some(o), Some(e)) = (b.find('{'), b.find('}')) {
            if o < e {
                let cols = soup::markers(&b[o..e]);
                if (1..cols.len()).any(|k| cols[..k].contains(&cols[k])) {
                    return true;
                }
            }
        }
        let Some(k) = key(b) else { continue };
        for l in &lines[i + 1..] {
            if l.0 < eff {
                break;
            }
            if l.1 == eff && key(l.2).as_deref() == Some(&k) {
                return true;
            }
        }
    }
    false
}
fn all_markers(t: &str, v: &Value) -> Result<(), String> {
    let out = v.to_string();
    let have: std::collections::HashSet<&str> = soup::markers(&out).into_iter().collect();
    let t = &without_zero_row_columns(t);
    for m in soup::markers(t) {
        if !have.contains(m) {
            return Err(format!("strict decoding accepts the document but {m} is lost: {v}\n{t}"));
        }
    }
    Ok(())
}
fn c06_drop(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let v = soup::marked(s);
    let mut st = doc::style(s);
    st.escapes = 0;
    let d = doc::layout(s, &v, st, o.delimiter, o.indent);
    let t = soup::mutate_structure(s, &d.text(), o.indent);
    drop_check(c, &t, &o)
}
fn c06_drop_soup(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = options(s);
    let t = soup::marked_soup(s, o.indent);
    drop_check(c, &t, &o)
}
fn drop_check(c: &mut Case, t: &str, o: &Options) -> Result<(), String> {
    c.repr = format!("{} {:?}", opts_text(o), t);
    match api::decode(t, o) {
        Err(_) => {
            c.label("rejected");
            Ok(())
        }
        Ok(v) => {
            if repeats_a_key(t, o.indent) {
                c.label("repeated key");
                return Ok(());
            }
            c.label("accepted");
            c.nontrivial = t.contains('\n');
            all_markers(t, &v)
        }
    }
}

fn c15_within(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, o) = soup::text(s, c);
    c.repr = format!("{} {:?}", opts_text(&o), t);
    let n = t.split('\n').count();
    for strict in [true, false] {
        let o = api::with(&o, |o| o.strict = strict);
        if let Err(e) = api::decode(&t, &o) {
            c.nontrivial = n > 1;
            c.checks += 1;
            if e.line.is_some_and(|l| l == 0 || l > n) {
                return Err(format!("the document has {n} lines, the error names another (strict={strict}): {e}\n{t}"));
            }
            if let Some(l) = e.line {
                shows_line(&e, l)?;
            }
        }
    }
    Ok(())
}

fn expand_some(s: &mut Src, o: &mut Options) {
    if s.chance(1, 3) {
        o.expand_paths = toon::ExpandPaths::Safe;
    }
}
fn c08(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, mut o) = soup::text(s, c);
    expand_some(s, &mut o);
    c.repr = format!("{} {:?}", opts_text(&o), t);
    let Ok(want) = api::decode(&t, &o) else {
        c.label("strict-rejects");
        return Ok(());
    };
    c.nontrivial = t.contains('\n');
    let l = api::with(&o, |o| o.strict = false);
    let got = api::decode(&t, &l).map_err(|e| format!("strict decoding accepts, lenient rejects: {e}\n{t}"))?;
    same(&want, &got).map_err(|e| format!("lenient differs from strict {e}\n{t}"))
}
fn c09(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, o) = soup::text(s, c);
    let e = options(s);
    c.repr = format!("{} / {} {:?}", opts_text(&o), opts_text(&e), t);
    let Ok(v) = api::decode(&t, &o) else {
        c.label("rejected");
        return Ok(());
    };
    c.nontrivial = v.is_array() || v.is_object();
    let t1 = api::encode(&v, &e).map_err(|x| format!("decoded value does not encode: {x}\n{t}"))?;
    let v1 = api::decode(&t1, &e).map_err(|x| format!("re-encoded text is rejected: {x}\n{t1}"))?;
    same(&refmodel::denoted(&v), &v1).map_err(|x| format!("re-encoding changes the value {x}\n{t}\nre-encoded:\n{t1}"))?;
    if refmodel::denoted(&v) == v && v1 != v {
        return Err(format!("re-encoding changes the kind of a number: {v} then {v1}\n{t}\nre-encoded:\n{t1}"));
    }
    let t2 = api::encode(&v1, &e)?;
    if t1 != t2 {
        return Err(format!("re-encoding again gives other text:\n{t1}\nthen\n{t2}"));
    }
    let t3 = api::encode(&v.clone(), &e)?;
    if t1 != t3 {
        return Err(format!("encoding is not deterministic:\n{t1}\nthen\n{t3}"));
    }
    Ok(())
}

/// A self-describing typed target.
#[derive(Debug, Clone)]
pub struct Any(pub Value);
impl<'de> serde::Deserialize<'de> for Any {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::*;
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_unit<E>(self) -> Result<Any, E> {
                Ok(Any(Value::Null))
            }
            fn visit_none<E>(self) -> Result<Any, E> {
                Ok(Any(Value::Null))
            }
            fn visit_bool<E>(self, b: bool) -> Result<Any, E> {
                Ok(Any(Value::Bool(b)))
            }
            fn visit_i64<E>(self, b: i64) -> Result<Any, E> {
                Ok(Any(Value::from(b)))
            }
            fn visit_u64<E>(self, b: u64) -> Result<Any, E> {
                Ok(Any(Value::from(b)))
            }
            fn visit_f64<E>(self, b: f64) -> Result<Any, E> {
                Ok(Any(Value::from(b)))
            }
            fn visit_str<E>(self, b: &str) -> Result<Any, E> {
                Ok(Any(Value::String(b.into())))
            }
            fn visit_string<E>(self, b: String) -> Result<Any, E> {
                Ok(Any(Value::String(b)))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut o = Vec::new();
                while let Some(Any(x)) = a.next_element()? {
                    o.push(x);
                }
                Ok(Any(Value::Array(o)))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut o = serde_json::Map::new();
                while let Some((k, Any(x))) = a.next_entry::<String, Any>()? {
                    o.insert(k, x);
                }
                Ok(Any(Value::Object(o)))
            }
        }
        d.deserialize_any(V)
    }
}

fn outcome_same(a: &Result<Value, api::DecErr>, b: &Result<Value, api::DecErr>) -> Result<(), String> {
    match (a, b) {
        (Ok(a), Ok(b)) => same(a, b),
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("accepted, then rejected: {e}")),
        (Err(e), Ok(_)) => Err(format!("rejected ({e}), then accepted")),
    }
}
fn c14_texts(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, mut o) = soup::text(s, c);
    expand_some(s, &mut o);
    o.strict = s.chance(2, 3);
    c.repr = format!("{} {:?}", opts_text(&o), t);
    let want = api::decode(&t, &o);
    c.nontrivial = want.is_ok() && t.contains('\n');
    for d in doc::delims() {
        for fold in [toon::KeyFolding::Off, toon::KeyFolding::Safe] {
            let depth = *s.pick(&[None, Some(0), Some(1), Some(3)]);
            let o2 = Options { delimiter: d, key_folding: fold, flatten_depth: depth, ..o.clone() };
            outcome_same(&want, &api::decode(&t, &o2)).map_err(|e| format!("under {}: {e}\n{t}", opts_text(&o2)))?;
            c.checks += 1;
        }
    }
    let e = documented_defaults();
    outcome_same(&api::decode(&t, &e), &api::decode(&t, &Options::default())).map_err(|e| format!("under the default options: {e}\n{t}"))?;
    #[cfg(not(feature = "set-alloc"))]
    {
        let r = toon::decode_from_reader::<_, Value>(t.as_bytes(), &o).map_err(api::err);
        outcome_same(&want, &r).map_err(|e| format!("from a reader: {e}\n{t}"))?;
    }
    #[cfg(not(feature = "set-all"))]
    {
        let r = api::decode_as::<Any>(&t, &o).map(|a| a.0);
        outcome_same(&want, &r).map_err(|e| format!("into a self-describing type: {e}\n{t}"))?;
    }
    Ok(())
}
/// What the documentation says the default options are.
fn documented_defaults() -> Options {
    Options {
        delimiter: toon::Delimiter::Comma,
        strict: true,
        indent: 2,
        key_folding: toon::KeyFolding::Off,
        flatten_depth: None,
        expand_paths: toon::ExpandPaths::Off,
    }
}

fn c14_layouts(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let v = value(s, cfg(s));
    let a = options(s);
    let b = options(s);
    c.repr = format!("{} / {} {}", opts_text(&a), opts_text(&b), v);
    c.nontrivial = opts_text(&a) != opts_text(&b) && (v.is_array() || v.is_object());
    label_value(&v, c);
    let x = api::decode(&api::encode(&v, &a)?, &a).map_err(|e| format!("rejected: {e}"))?;
    let y = api::decode(&api::encode(&v, &b)?, &b).map_err(|e| format!("rejected: {e}"))?;
    same(&x, &y)?;
    let (t, u) = (api::encode(&v, &documented_defaults())?, api::encode(&v, &Options::default())?);
    if t != u {
        return Err(format!("the default options give {u:?}, the documented ones {t:?}"));
    }
    let folding = |o: Options| Options { key_folding: toon::KeyFolding::Safe, ..o };
    let (t, u) = (api::encode(&v, &folding(documented_defaults()))?, api::encode(&v, &folding(Options::default()))?);
    if t != u {
        return Err(format!("the default options, folding, give {u:?}, the documented ones {t:?}"));
    }
    Ok(())
}

/// One call of the library and what it gave, written out.
enum Call {
    Decode(String, Options),
    Reader(String, Options),
    Typed(String, Options),
    Encode(Value, Options),
    Buffered(Value, Options),
    /// encoding that fails part of the way
    Failing(Value, Options),
}
struct FailsAfter<'a>(&'a Value);
impl serde::Serialize for FailsAfter<'_> {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = ser.serialize_map(None)?;
        m.serialize_entry("a.b", self.0)?;
        m.serialize_entry("z", &Fails)?;
        m.end()
    }
}
struct Fails;
impl serde::Serialize for Fails {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("no"))
    }
}
impl Call {
    fn gen_one(s: &mut Src, c: &mut Case) -> Call {
        let mut none = Case::default();
        match s.below(8) {
            0..=2 => {
                let (t, mut o) = soup::text(s, &mut none);
                expand_some(s, &mut o);
                o.strict = s.chance(2, 3);
                Call::Decode(t, o)
            }
            3 => {
                let (t, o) = soup::text(s, &mut none);
                if s.chance(1, 2) { Call::Reader(t, o) } else { Call::Typed(t, o) }
            }
            4 => Call::Failing(value(s, cfg(s)), fold_options(s)),
            k => {
                let v = value(s, cfg(s));
                label_value(&v, c);
                if k == 5 { Call::Buffered(v, fold_options(s)) } else { Call::Encode(v, fold_options(s)) }
            }
        }
    }
    fn run(&self) -> Result<String, String> {
        match self {
            Call::Decode(t, o) => api::decode(t, o).map(|v| v.to_string()).map_err(|e| format!("{e} {:?}", e.line)),
            #[cfg(not(feature = "set-alloc"))]
            Call::Reader(t, o) => toon::decode_from_reader::<_, Value>(t.as_bytes(), o).map(|v| v.to_string()).map_err(|e| e.to_string()),
            #[cfg(feature = "set-alloc")]
            Call::Reader(t, o) => api::decode(t, o).map(|v| v.to_string()).map_err(|e| e.to_string()),
            Call::Typed(t, o) => api::decode_as::<std::collections::BTreeMap<String, Vec<i64>>>(t, o).map(|v| format!("{v:?}")).map_err(|e| e.to_string()),
            Call::Encode(v, o) => api::encode(v, o),
            Call::Buffered(v, o) => api::encode_buffered(v, o),
            Call::Failing(v, o) => api::encode(&FailsAfter(v), o),
        }
    }
    fn show(&self) -> String {
        match self {
            Call::Decode(t, o) => format!("decode {} {t:?}", opts_text(o)),
            Call::Reader(t, o) => format!("reader {} {t:?}", opts_text(o)),
            Call::Typed(t, o) => format!("typed {} {t:?}", opts_text(o)),
            Call::Encode(v, o) => format!("encode {} {v}", opts_text(o)),
            Call::Buffered(v, o) => format!("encode-buffered {} {v}", opts_text(o)),
            Call::Failing(v, o) => format!("encode-failing {} {v}", opts_text(o)),
        }
    }
}
fn c14_history(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let n = s.range(2, 6);
    let calls: Vec<Call> = (0..n).map(|_| Call::gen_one(s, c)).collect();
    let order: Vec<usize> = (0..s.range(2, 10)).map(|_| s.below(n)).collect();
    let two = s.chance(1, 16);
    c.repr = format!("{}\nthen {order:?}{}", calls.iter().map(Call::show).collect::<Vec<_>>().join("\n"), if two { " on two threads" } else { "" });
    let first: Vec<_> = calls.iter().map(Call::run).collect();
    c.nontrivial = first.iter().any(|r| r.is_err()) && first.iter().filter(|r| r.is_ok()).count() > 1;
    let again = |order: &mut dyn Iterator<Item = usize>| -> Result<(), String> {
        for i in order {
            let r = calls[i].run();
            if r != first[i] {
                return Err(format!("call {i} gives {r:?} after the others, {:?} at first: {}", first[i], calls[i].show()));
            }
        }
        Ok(())
    };
    if two {
        c.label("two-threads");
        let (a, b) = std::thread::scope(|sc| {
            let other = sc.spawn(|| again(&mut order.iter().rev().copied()));
            (again(&mut order.iter().copied()), other.join())
        });
        a?;
        b.map_err(|_| "panicked on another thread".to_string())??;
    } else {
        again(&mut order.iter().copied())?;
    }
    c.checks += order.len() as u64;
    Ok(())
}
