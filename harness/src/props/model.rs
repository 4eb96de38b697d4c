//! C22 and C23: what the scanner and the parser's own value model show to a user of them.

use crate::api;
use crate::engine::{Case, Src, Sub};
use crate::generate::*;
use crate::refmodel::{self, same};
use crate::runner::Prop;
use crate::soup;
use serde_json::Value;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            rule: "A case is a text; each line's record is compared with an independent description of it. Non-trivial: the text has a line with a colon, a quote or a hyphen. Distinct by text.",
            subs: vec![Sub { name: "texts", f: c22, quick: 1_500_000, thorough: 40_000_000, max_size: 70 }],
            known: vec![],
        },
        Prop {
            id: "C23",
            rule: "A case is a text; the library's own value from each public parser entry point is compared with the JSON value decoded from it. Also numbers of every kind are displayed. Non-trivial: the text is accepted and holds a container. Distinct by text.",
            subs: vec![
                Sub { name: "texts", f: c23_texts, quick: 600_000, thorough: 15_000_000, max_size: 70 },
                Sub { name: "numbers", f: c23_numbers, quick: 800_000, thorough: 20_000_000, max_size: 100 },
            ],
            known: vec![],
        },
    ]
}

// ---- C22 ----

#[derive(PartialEq, Debug)]
enum K<'a> {
    Blank,
    Kv(&'a str, &'a str),
    Key(&'a str),
    Item(Option<&'a str>),
    Other(&'a str),
}
/// What a line is, described over characters.
fn describe(line: &str) -> (usize, K<'_>) {
    let indent = line.chars().take_while(|c| *c == ' ').count();
    let body = &line[indent..];
    if body.is_empty() {
        return (indent, K::Blank);
    }
    if body == "-" {
        return (indent, K::Item(None));
    }
    if body.starts_with("- ") {
        return (indent, K::Item(Some(&body[2..])));
    }
    if body.starts_with('@') {
        return (indent, K::Other(body));
    }
    let (mut quoted, mut skip) = (false, false);
    for (i, ch) in body.char_indices() {
        if skip {
            skip = false;
        } else if quoted {
            match ch {
                '\\' => skip = true,
                '"' => quoted = false,
                _ => {}
            }
        } else if ch == '"' {
            quoted = true;
        } else if ch == ':' {
            let blank = [' ', '\t'];
            let rest = &body[i + 1..];
            let v = rest.trim_start_matches(blank);
            return (indent, if v.is_empty() { K::Key(&body[..i]) } else { K::Kv(&body[..i], v) });
        }
    }
    (indent, K::Other(body))
}
fn c22(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, _) = soup::text(s, c);
    c.repr = format!("{t:?}");
    c.nontrivial = t.contains([':', '"', '-']);
    let lines = toon::decode::scanner::scan(&t);
    let mut want: Vec<&str> = t.split('\n').collect();
    if t.ends_with('\n') || t.is_empty() {
        want.pop();
    }
    if lines.len() != want.len() {
        return Err(format!("{} lines, {} records", want.len(), lines.len()));
    }
    for (i, (l, w)) in lines.iter().zip(&want).enumerate() {
        use toon::decode::scanner::LineKind::*;
        let got = match &l.kind {
            Blank => K::Blank,
            KeyValue { key, value } => K::Kv(key, value),
            KeyOnly { key } => K::Key(key),
            ListItem { value } => K::Item(*value),
            Scalar(x) => K::Other(x),
        };
        let (ind, k) = describe(w);
        if l.indent != ind {
            return Err(format!("line {}: indent {} for {w:?}", i + 1, l.indent));
        }
        if got != k {
            return Err(format!("line {} {w:?} is {got:?}, expected {k:?}", i + 1));
        }
        // verbatim slices of the text
        let range = t.as_bytes().as_ptr_range();
        let inside = |x: &str| range.start <= x.as_ptr() && x.as_bytes().as_ptr_range().end <= range.end;
        let ok = match got {
            K::Blank | K::Item(None) => true,
            K::Kv(a, b) => inside(a) && inside(b),
            K::Key(a) | K::Item(Some(a)) | K::Other(a) => inside(a),
        };
        if !ok {
            return Err(format!("line {}: a part is not a slice of the text", i + 1));
        }
        c.checks += 1;
    }
    Ok(())
}

// ---- C23 ----

fn to_json(v: &toon::value::Value) -> Value {
    use toon::value::{Number, Value as V};
    match v {
        V::Null => Value::Null,
        V::Bool(b) => Value::Bool(*b),
        V::Number(Number::I64(i)) => Value::from(*i),
        V::Number(Number::U64(i)) => Value::from(*i),
        V::Number(Number::F64(i)) => Value::from(*i),
        V::String(s) => Value::String(s.clone()),
        V::Array(a) => Value::Array(a.iter().map(to_json).collect()),
        V::Object(m) => {
            let mut o = serde_json::Map::new();
            for (k, x) in m {
                o.insert(k.clone(), to_json(x));
            }
            Value::Object(o)
        }
    }
}
fn check_model(v: &toon::value::Value) -> Result<(), String> {
    use toon::value::Value as V;
    let container = matches!(v, V::Array(_) | V::Object(_));
    if v.is_primitive() == container {
        return Err(format!("is_primitive() is {} for {v:?}", v.is_primitive()));
    }
    match v {
        V::Number(n) => number_text(n),
        V::Array(a) => a.iter().try_for_each(check_model),
        V::Object(m) => m.iter().try_for_each(|(_, x)| check_model(x)),
        _ => Ok(()),
    }
}
fn number_text(n: &toon::value::Number) -> Result<(), String> {
    use toon::value::Number as N;
    let want = match n {
        N::I64(i) => i.to_string(),
        N::U64(i) => i.to_string(),
        N::F64(f) if !f.is_finite() || refmodel::is_tie(*f) => return Ok(()),
        N::F64(f) => refmodel::float_text(*f),
    };
    if n.to_string() != want {
        return Err(format!("{n:?} is displayed as {n}, expected {want}"));
    }
    Ok(())
}
fn c23_texts(s: &mut Src, c: &mut Case) -> Result<(), String> {
    use toon::decode::parser as p;
    let (t, o) = soup::text(s, c);
    let o = api::with(&o, |o| o.indent = 2);
    c.repr = format!("{t:?}");
    let strict = api::decode(&t, &o);
    let lenient = api::decode(&t, &api::with(&o, |o| o.strict = false));
    if let Ok(want) = &strict {
        c.nontrivial = want.is_array() || want.is_object();
        let a = p::parse_to_value_with_strict(&t, true).map_err(|e| format!("parse_to_value_with_strict rejects: {e}\n{t}"))?;
        same(want, &to_json(&a)).map_err(|e| format!("parse_to_value_with_strict {e}\n{t}"))?;
        check_model(&a)?;
        let b = p::parse_to_internal_value_from_lines(toon::decode::scanner::scan(&t), true).map_err(|e| format!("parse_to_internal_value_from_lines rejects: {e}\n{t}"))?;
        same(want, &to_json(&b)).map_err(|e| format!("parse_to_internal_value_from_lines {e}\n{t}"))?;
        if a != b {
            return Err(format!("two parser entry points differ: {a:?} / {b:?}\n{t}"));
        }
        c.checks += 2;
    }
    if let Ok(want) = &lenient {
        let a = p::parse_to_value_with_strict(&t, false).map_err(|e| format!("parse_to_value_with_strict rejects: {e}\n{t}"))?;
        same(want, &to_json(&a)).map_err(|e| format!("parse_to_value_with_strict (lenient) {e}\n{t}"))?;
        check_model(&a)?;
        let b = p::parse_to_internal_value(&t);
        if a != b {
            return Err(format!("parse_to_internal_value differs: {b:?} / {a:?}\n{t}"));
        }
        let b = p::parse_to_internal_value_from_lines(toon::decode::scanner::scan(&t), false).map_err(|e| format!("parse_to_internal_value_from_lines rejects: {e}\n{t}"))?;
        if a != b {
            return Err(format!("parse_to_internal_value_from_lines differs: {b:?} / {a:?}\n{t}"));
        }
        #[cfg(not(feature = "set-alloc"))]
        same(want, &p::parse_to_value(&t)).map_err(|e| format!("parse_to_value {e}\n{t}"))?;
        c.checks += 4;
    }
    Ok(())
}
fn c23_numbers(s: &mut Src, c: &mut Case) -> Result<(), String> {
    use toon::value::Number as N;
    let n = match s.below(3) {
        0 => N::I64(any_i64(s)),
        1 => N::U64(s.u64()),
        _ => N::F64(any_f64(s)),
    };
    c.repr = format!("{n:?}");
    c.nontrivial = c.repr.len() > 6;
    number_text(&n)
}
