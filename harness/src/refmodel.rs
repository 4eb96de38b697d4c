//! Independent reference model of the format: canonical encoder, quoting rule, number text, value
//! equality, key folding and path merging. It works on levels and (level, text) lines and shares no code with
//! the library.

use serde_json::{Map, Number, Value};
use toon::Delimiter;

pub fn is_prim(v: &Value) -> bool {
    !matches!(v, Value::Array(_) | Value::Object(_))
}

/// Canonical decimal text of a number.
pub fn num_text(n: &Number) -> String {
    if let Some(i) = n.as_i64() {
        return i.to_string();
    }
    if let Some(u) = n.as_u64() {
        return u.to_string();
    }
    float_text(n.as_f64().unwrap())
}
pub fn float_text(f: f64) -> String {
    if !f.is_finite() {
        return "null".into();
    }
    if f == 0.0 {
        return "0".into();
    }
    format!("{}", f)
}

/// A float whose exact value lies half-way between two equally short decimal spellings that both
/// read back as it. "Shortest" does not single one out, so text comparisons leave such floats alone.
pub fn is_tie(f: f64) -> bool {
    if f == 0.0 || !f.is_finite() {
        return false;
    }
    let digits = |s: String| -> String { s.split('e').next().unwrap().chars().filter(|c| c.is_ascii_digit()).collect() };
    let short = digits(format!("{f:e}"));
    let next = digits(format!("{:.*e}", short.len() + 1, f));
    // cheap test first: the digits that follow must start like 5 (or round up to it)
    if !matches!(next.as_bytes()[short.len()], b'4' | b'5') {
        return false;
    }
    let exact = digits(format!("{f:.800e}"));
    exact.as_bytes()[short.len()] == b'5' && exact[short.len() + 1..].bytes().all(|b| b == b'0')
}
/// The value with such floats replaced.
pub fn untie(v: Value) -> Value {
    match v {
        Value::Number(n) if n.is_f64() && is_tie(n.as_f64().unwrap()) => Value::from(2.5),
        Value::Array(a) => Value::Array(a.into_iter().map(untie).collect()),
        Value::Object(m) => Value::Object(m.into_iter().map(|(k, v)| (k, untie(v))).collect()),
        x => x,
    }
}

pub fn delim_char(d: Delimiter) -> char {
    match d {
        Delimiter::Comma => ',',
        Delimiter::Tab => '\t',
        Delimiter::Pipe => '|',
    }
}

/// -?digits[.digits][e[+-]digits], leading zeros allowed (they look like numbers to a reader).
pub fn numeric_shape(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    if b.first() == Some(&b'-') {
        i = 1;
    }
    let digits = |i: &mut usize| {
        let st = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i > st
    };
    if !digits(&mut i) {
        return false;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        if !digits(&mut i) {
            return false;
        }
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if !digits(&mut i) {
            return false;
        }
    }
    i == b.len()
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Quote {
    Must,
    MustNot,
    /// The statement leaves it open (Unicode blanks at the ends, C1 controls, number spellings outside JSON).
    Either,
}

pub fn quote_rule(s: &str, d: Delimiter) -> Quote {
    if s.is_empty() || s.starts_with(' ') || s.ends_with(' ') || s.starts_with('-') {
        return Quote::Must;
    }
    if matches!(s, "true" | "false" | "null") || numeric_shape(s) {
        return Quote::Must;
    }
    let dc = delim_char(d);
    if s.chars().any(|c| c == dc || matches!(c, ':' | '"' | '\\' | '[' | ']' | '{' | '}') || (c as u32) < 0x20 || c as u32 == 0x7f) {
        return Quote::Must;
    }
    let t = s.trim();
    let t2 = t.strip_prefix('+').unwrap_or(t);
    if t != s || t2.parse::<f64>().is_ok() || t2.strip_prefix(['-', '+']).unwrap_or(t2).parse::<f64>().is_ok() || s.chars().any(|c| (0x80..0xa0).contains(&(c as u32))) {
        return Quote::Either;
    }
    Quote::MustNot
}

/// Does the value hold a string that may be written both ways?
pub fn has_open_quoting(v: &Value) -> bool {
    match v {
        Value::String(x) => [Delimiter::Comma, Delimiter::Tab, Delimiter::Pipe].iter().any(|d| quote_rule(x, *d) == Quote::Either),
        Value::Array(a) => a.iter().any(has_open_quoting),
        Value::Object(m) => m.values().any(has_open_quoting),
        _ => false,
    }
}

pub fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn str_text(s: &str, d: Delimiter) -> String {
    if quote_rule(s, d) == Quote::MustNot { s.to_string() } else { quoted(s) }
}

pub fn is_ident(k: &str) -> bool {
    let mut cs = k.chars();
    matches!(cs.next(), Some(c) if c.is_ascii_alphabetic() || c == '_') && cs.all(|c| c.is_ascii_alphanumeric() || c == '_')
}
pub fn key_plain(k: &str) -> bool {
    let mut cs = k.chars();
    matches!(cs.next(), Some(c) if c.is_ascii_alphabetic() || c == '_') && cs.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.')
}
pub fn key_text(k: &str) -> String {
    if key_plain(k) { k.to_string() } else { quoted(k) }
}
/// A key that path expansion would split.
pub fn is_path(k: &str) -> bool {
    k.contains('.') && k.split('.').all(is_ident)
}

/// Column names when the array takes tabular form.
pub fn table_columns(a: &[Value]) -> Option<Vec<&String>> {
    let first = a.first()?.as_object()?;
    if first.is_empty() {
        return None;
    }
    for x in a {
        let m = x.as_object()?;
        if m.len() != first.len() || !m.iter().all(|(k, v)| first.contains_key(k) && is_prim(v)) {
            return None;
        }
    }
    Some(first.keys().collect())
}

pub fn prim_text(v: &Value, d: Delimiter) -> String {
    match v {
        Value::Null => "null".into(),
        Value::Bool(b) => b.to_string(),
        Value::Number(n) => num_text(n),
        Value::String(s) => str_text(s, d),
        _ => unreachable!(),
    }
}

#[derive(Clone, Copy)]
pub struct Fold {
    pub on: bool,
    pub depth: Option<usize>,
}

pub struct Enc {
    pub d: Delimiter,
    pub indent: usize,
    pub fold: Fold,
    lines: Vec<(usize, String)>,
}

impl Enc {
    fn push(&mut self, lvl: usize, s: String) {
        self.lines.push((lvl, s));
    }
    fn head(&self, n: usize) -> String {
        match self.d {
            Delimiter::Comma => format!("[{n}]"),
            d => format!("[{n}{}]", delim_char(d)),
        }
    }
    fn join(&self, xs: impl Iterator<Item = String>) -> String {
        xs.collect::<Vec<_>>().join(&delim_char(self.d).to_string())
    }
    fn arr(&mut self, prefix: &str, a: &[Value], lvl: usize, body: usize, keyed: bool, fold: bool) {
        let h = format!("{prefix}{}", self.head(a.len()));
        if a.is_empty() {
            self.push(lvl, format!("{h}:"));
        } else if a.iter().all(is_prim) {
            let row = self.join(a.iter().map(|v| prim_text(v, self.d)));
            self.push(lvl, format!("{h}: {row}"));
        } else if let (true, Some(cols)) = (keyed, table_columns(a)) {
            let names = self.join(cols.iter().map(|k| key_text(k)));
            self.push(lvl, format!("{h}{{{names}}}:"));
            for r in a {
                let row = self.join(cols.iter().map(|k| prim_text(&r[k.as_str()], self.d)));
                self.push(body, row);
            }
        } else {
            self.push(lvl, format!("{h}:"));
            for x in a {
                self.item(x, body, fold);
            }
        }
    }
    fn item(&mut self, v: &Value, lvl: usize, fold: bool) {
        match v {
            Value::Array(a) => self.arr("- ", a, lvl, lvl + 1, false, fold),
            Value::Object(m) => {
                let mut it = m.iter();
                match it.next() {
                    None => self.push(lvl, "-".into()),
                    Some((k, v)) => {
                        self.field(&format!("- {}", key_text(k)), v, lvl, lvl + 2, fold);
                        let sib: Vec<&String> = m.keys().collect();
                        for (k, v) in it {
                            self.obj_field(k, v, lvl + 1, fold, &sib);
                        }
                    }
                }
            }
            p => {
                let t = prim_text(p, self.d);
                self.push(lvl, format!("- {t}"))
            }
        }
    }
    fn field(&mut self, key: &str, v: &Value, lvl: usize, body: usize, fold: bool) {
        match v {
            Value::Array(a) => self.arr(key, a, lvl, body, true, fold),
            Value::Object(m) => {
                self.push(lvl, format!("{key}:"));
                self.fields(m, body, fold);
            }
            p => {
                let t = prim_text(p, self.d);
                self.push(lvl, format!("{key}: {t}"))
            }
        }
    }
    fn fields(&mut self, m: &Map<String, Value>, lvl: usize, fold: bool) {
        let sib: Vec<&String> = m.keys().collect();
        for (k, v) in m {
            self.obj_field(k, v, lvl, fold, &sib);
        }
    }
    fn obj_field(&mut self, k: &str, v: &Value, lvl: usize, fold: bool, siblings: &[&String]) {
        let mut fold_below = fold;
        if fold {
            let max = self.fold.depth.unwrap_or(usize::MAX);
            let (path, val) = fold_chain(k, v, max);
            if path.len() > 1 {
                let name = path.join(".");
                if !siblings.iter().any(|s| **s == name) {
                    self.field(&name, val, lvl, lvl + 1, false);
                    return;
                }
                fold_below = false;
            }
        }
        self.field(&key_text(k), v, lvl, lvl + 1, fold_below);
    }
}

/// The chain of identifier keys that starts at (k, v), at most `max` long, and the value at its end.
pub fn fold_chain<'a>(k: &'a str, v: &'a Value, max: usize) -> (Vec<&'a str>, &'a Value) {
    let mut path = vec![k];
    let mut cur = v;
    if is_ident(k) {
        while let Value::Object(m) = cur {
            let Some((k2, v2)) = m.iter().next() else { break };
            if m.len() != 1 || path.len() >= max || !is_ident(k2) {
                break;
            }
            path.push(k2);
            cur = v2;
        }
    }
    (path, cur)
}

pub fn encode(v: &Value, d: Delimiter, indent: usize, fold: Fold) -> String {
    let lines = encode_lines(v, d, indent, fold);
    let mut out = String::new();
    for (i, (l, t)) in lines.iter().enumerate() {
        if i > 0 {
            out.push('\n');
        }
        out.push_str(&" ".repeat(l * indent));
        out.push_str(t);
    }
    out
}
pub fn encode_lines(v: &Value, d: Delimiter, indent: usize, fold: Fold) -> Vec<(usize, String)> {
    let mut e = Enc { d, indent, fold, lines: vec![] };
    match v {
        Value::Array(a) => e.arr("", a, 0, 1, true, fold.on),
        Value::Object(m) => e.fields(m, 0, fold.on),
        p => {
            let t = prim_text(p, d);
            e.push(0, t)
        }
    }
    e.lines
}
pub fn encode_opts(v: &Value, o: &toon::Options) -> String {
    encode(v, o.delimiter, o.indent, Fold { on: o.key_folding == toon::KeyFolding::Safe, depth: o.flatten_depth })
}

/// The value a canonical document of `v` denotes: table rows take the first row's key order.
pub fn denoted(v: &Value) -> Value {
    denote(v, true)
}
fn denote(v: &Value, keyed: bool) -> Value {
    match v {
        Value::Array(a) => {
            if keyed && let Some(cols) = table_columns(a) {
                return Value::Array(a.iter().map(|r| Value::Object(cols.iter().map(|k| ((*k).clone(), r[k.as_str()].clone())).collect())).collect());
            }
            Value::Array(a.iter().map(|x| denote(x, false)).collect())
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), denote(v, true))).collect()),
        x => x.clone(),
    }
}

pub fn num_eq(want: &Number, got: &Number) -> bool {
    if want.is_f64() {
        let f = want.as_f64().unwrap();
        got.as_f64() == Some(f) && (f != 0.0 || !got.is_f64() || got.as_f64().unwrap().is_sign_positive())
    } else if let Some(i) = want.as_i64() {
        got.as_i64() == Some(i)
    } else {
        got.as_u64() == want.as_u64()
    }
}

/// Exact equality: types, numbers, strings, order of arrays and of keys. Says where it differs.
pub fn same(want: &Value, got: &Value) -> Result<(), String> {
    fn go(w: &Value, g: &Value, path: &mut String) -> Result<(), String> {
        let fail = |path: &str| Err(format!("at ${path}: expected {}, got {}", crate::engine::clip(&w.to_string(), 300), crate::engine::clip(&g.to_string(), 300)));
        match (w, g) {
            (Value::Null, Value::Null) => Ok(()),
            (Value::Bool(a), Value::Bool(b)) if a == b => Ok(()),
            (Value::String(a), Value::String(b)) if a == b => Ok(()),
            (Value::Number(a), Value::Number(b)) if num_eq(a, b) => Ok(()),
            (Value::Array(a), Value::Array(b)) if a.len() == b.len() => {
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    let n = path.len();
                    path.push_str(&format!("[{i}]"));
                    go(x, y, path)?;
                    path.truncate(n);
                }
                Ok(())
            }
            (Value::Object(a), Value::Object(b)) if a.len() == b.len() => {
                for ((k, x), (k2, y)) in a.iter().zip(b) {
                    if k != k2 {
                        return Err(format!("at ${path}: expected keys {:?}, got {:?}", a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>()));
                    }
                    let n = path.len();
                    path.push_str(&format!(".{k:?}"));
                    go(x, y, path)?;
                    path.truncate(n);
                }
                Ok(())
            }
            _ => fail(path),
        }
    }
    go(want, got, &mut String::new())
}
