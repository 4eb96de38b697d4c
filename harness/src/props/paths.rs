//! C13: path expansion against a reference deep merge.

use crate::api;
use crate::doc::{self, Style};
use crate::engine::*;
use crate::generate::{opts_text, options, simple_primitive};
use crate::refmodel::{is_ident, same};
use crate::runner::Prop;
use serde_json::{Map, Value};
use toon::ExpandPaths;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        rule: "A case is a document whose keys are chosen as paths, literals, quoted paths and near-paths, in random layout; decoding with expansion on (strict and lenient) is compared with a reference deep merge, with expansion off with the keys as written. Non-trivial: at least one path key is expanded. Distinct by document and options.",
        subs: vec![
            Sub { name: "merge", f: c13_merge, quick: 500_000, thorough: 12_000_000, max_size: 70 },
            Sub { name: "off", f: c13_off, quick: 200_000, thorough: 5_000_000, max_size: 70 },
        ],
        known: vec![],
    }]
}

const LITERALS: &[&str] = &[
    "a-b.c", "full-name.x", "a..b", ".a", "a.", ".", "..", "1.b", "a.1b", "été.x", "a.é", "a b.c", "a.b c", "$a.b", "a.b-c.d", "-a.b", "2.5", "a.2", "\u{200b}a.b", "\u{200b}a", "\u{200b}", "\u{200b}\u{200b}a.b",
    "a.\u{200b}b", "a\u{200b}.b", "_.-", "a/b.c", "a.b/c", "a.b.", "a.b..c", "0.a",
];
const QUOTED_ONLY: &[&str] = &["a.b c:d", "a.\"b\"", "a.b\n", "a,b.c", "", " a.b", "a.b ", "x:y.z", "a[0].b", "a.b[1]", "{a.b}"];

struct G {
    /// Leaf names are never repeated, so that paths merge but do not conflict.
    unique: bool,
    next: usize,
    budget: usize,
    literals: bool,
}

fn segment(s: &mut Src) -> String {
    if let Some(t) = crate::words::ident(s) {
        return t;
    }
    s.pick::<&str>(&["a", "b", "c", "_", "A", "a1", "_x", "Zz9_"]).to_string()
}
fn key(s: &mut Src, g: &mut G) -> String {
    let path = |s: &mut Src, g: &mut G| {
        let n = if g.unique && s.chance(1, 8) {
            0
        } else if s.chance(1, 100) {
            s.range(7, 60)
        } else {
            *s.pick(&[2, 1, 2, 3, 2, 4, 3, 6])
        };
        let mut p: Vec<String> = (0..n).map(|_| if s.chance(1, 3) { segment(s) } else { s.pick::<&str>(&["a", "b"]).to_string() }).collect();
        if g.unique {
            g.next += 1;
            p.push(format!("k{}", g.next));
        }
        p.join(".")
    };
    let (tag, text) = match s.weighted(&[10, 2, if g.literals { 2 } else { 0 }, if g.literals { 1 } else { 0 }]) {
        0 => ('u', path(s, g)),
        1 => ('q', path(s, g)),
        2 => (if s.chance(1, 3) { 'q' } else { 'u' }, s.pick::<&str>(LITERALS).to_string()),
        _ => ('q', s.pick::<&str>(QUOTED_ONLY).to_string()),
    };
    let n = s.below(3);
    format!("{tag}{n}{text}")
}
/// Keys that are literal may not be written twice in one object: that is not a path conflict.
fn insert(m: &mut Map<String, Value>, k: String, v: Value) {
    let literal = !expands(&k);
    if m.contains_key(&k) || (literal && m.keys().any(|o| !expands(o) && o[2..] == k[2..])) {
        return;
    }
    m.insert(k, v);
}
fn expands(tagged: &str) -> bool {
    let (tag, text) = (&tagged[..1], &tagged[2..]);
    tag == "u" && text.contains('.') && text.split('.').all(is_ident_segment)
}
fn is_ident_segment(x: &str) -> bool {
    is_ident(x) && !x.contains('.')
}
fn node(s: &mut Src, g: &mut G, depth: usize) -> Value {
    if g.budget == 0 || depth > 4 {
        return simple_primitive(s);
    }
    g.budget -= 1;
    match s.weighted(&[5, 5, 2, 2, 2, 1]) {
        0 => simple_primitive(s),
        1 => object(s, g, depth + 1),
        2 => {
            let n = s.count(4);
            Value::Array((0..n).map(|_| simple_primitive(s)).collect())
        }
        3 => {
            // a table with path columns
            let n = 1 + s.count(3);
            let mut cols = Map::new();
            for _ in 0..n {
                let k = key(s, g);
                insert(&mut cols, k, Value::Null);
            }
            let rows = 1 + s.count(3);
            Value::Array(
                (0..rows)
                    .map(|_| Value::Object(cols.keys().map(|k| (k.clone(), simple_primitive(s))).collect()))
                    .collect(),
            )
        }
        4 => {
            let n = s.count(4);
            Value::Array((0..n).map(|_| object(s, g, depth + 1)).collect())
        }
        _ => {
            let n = s.count(3);
            Value::Array((0..n).map(|_| node(s, g, depth + 1)).collect())
        }
    }
}
fn object(s: &mut Src, g: &mut G, depth: usize) -> Value {
    let wide = s.size > 20 && s.chance(1, 60);
    let n = if wide { s.many(7, 70, 400) } else { s.count(6) };
    let own = if s.chance(1, 2) { (2, 3) } else { (24, 25) };
    let mut m = Map::new();
    for i in 0..n {
        // among many keys, most are of their own and few are paths that meet
        let k = if wide && s.chance(own.0, own.1) { format!("u0w{i}") } else { key(s, g) };
        let v = if wide && (k.starts_with("u0w") || s.chance(1, 2)) { simple_primitive(s) } else { node(s, g, depth) };
        insert(&mut m, k, v);
    }
    Value::Object(m)
}

/// `conflicts` counts values that were overwritten.
fn merge(into: &mut Map<String, Value>, k: &str, v: Value, conflicts: &mut usize) {
    match (into.get_mut(k), v) {
        (Some(Value::Object(old)), Value::Object(new)) => {
            for (k, v) in new {
                merge(old, &k, v, conflicts);
            }
        }
        (Some(old), v) => {
            *conflicts += 1;
            *old = v;
        }
        (None, v) => {
            into.insert(k.to_string(), v);
        }
    }
}
fn expand(v: &Value, conflicts: &mut usize, paths: &mut usize) -> Value {
    match v {
        Value::Object(m) => {
            let mut out = Map::new();
            for (k, v) in m {
                let mut x = expand(v, conflicts, paths);
                let text = &k[2..];
                if expands(k) {
                    *paths += 1;
                    let mut segs: Vec<&str> = text.split('.').collect();
                    let first = segs.remove(0);
                    for seg in segs.into_iter().rev() {
                        let mut o = Map::new();
                        o.insert(seg.to_string(), x);
                        x = Value::Object(o);
                    }
                    merge(&mut out, first, x, conflicts);
                } else {
                    merge(&mut out, text, x, conflicts);
                }
            }
            Value::Object(out)
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| expand(x, conflicts, paths)).collect()),
        p => p.clone(),
    }
}
fn untag(v: &Value, dup: &mut bool) -> Value {
    match v {
        Value::Object(m) => {
            let mut out = Map::new();
            for (k, v) in m {
                if out.insert(k[2..].to_string(), untag(v, dup)).is_some() {
                    *dup = true;
                }
            }
            Value::Object(out)
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| untag(x, dup)).collect()),
        p => p.clone(),
    }
}
fn unordered(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut e: Vec<(String, Value)> = m.iter().map(|(k, v)| (k.clone(), unordered(v))).collect();
            e.sort_by(|a, b| a.0.cmp(&b.0));
            Value::Object(e.into_iter().collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(unordered).collect()),
        p => p.clone(),
    }
}

/// A document with tagged keys; `want` still carries the tags.
pub fn tagged_doc(s: &mut Src) -> (String, Value, toon::Options) {
    let o = options(s);
    let mut g = G { unique: s.chance(2, 5), next: 0, budget: 3 + s.size as usize / 4, literals: s.chance(1, 2) };
    let v = match s.weighted(&[6, 1]) {
        0 => object(s, &mut g, 0),
        _ => Value::Array((0..1 + s.count(3)).map(|_| object(s, &mut g, 0)).collect()),
    };
    let st = Style { tagged: true, ..doc::style(s) };
    let d = doc::layout(s, &v, st, o.delimiter, o.indent);
    let t = d.spaced(s, 5);
    (t, d.want, o)
}

fn c13_merge(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, tagged, o) = tagged_doc(s);
    let o = api::with(&o, |o| o.expand_paths = ExpandPaths::Safe);
    c.repr = format!("{} {:?}", opts_text(&o), t);
    let (mut conflicts, mut paths) = (0, 0);
    let want = expand(&tagged, &mut conflicts, &mut paths);
    c.nontrivial = paths > 0;
    c.label(if conflicts > 0 { "conflict" } else { "no conflict" });
    c.checks += 1;
    match api::decode(&t, &api::with(&o, |o| o.strict = false)) {
        Err(e) => return Err(format!("lenient decoding with expansion fails: {e}\n{t}")),
        Ok(got) if conflicts == 0 => same(&want, &got).map_err(|e| format!("lenient expansion differs: {e}\nwant {want}\ngot  {got}\n{t}"))?,
        Ok(got) => same(&unordered(&want), &unordered(&got)).map_err(|e| format!("lenient expansion with conflicts differs from last-value-wins: {e}\nwant {want}\ngot  {got}\n{t}"))?,
    }
    c.checks += 1;
    match api::decode(&t, &api::with(&o, |o| o.strict = true)) {
        Err(e) if conflicts == 0 => Err(format!("strict decoding with expansion fails without a conflict: {e}\nwant {want}\n{t}")),
        Err(_) => Ok(()),
        Ok(got) if conflicts > 0 => Err(format!("strict expansion accepts {conflicts} conflict(s): {got}\n{t}")),
        Ok(got) => same(&want, &got).map_err(|e| format!("strict expansion differs: {e}\nwant {want}\ngot  {got}\n{t}")),
    }
}

fn c13_off(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, tagged, o) = tagged_doc(s);
    c.repr = format!("{} {:?}", opts_text(&o), t);
    let mut dup = false;
    let want = untag(&tagged, &mut dup);
    if dup {
        c.label("repeated key");
        return Ok(());
    }
    c.nontrivial = t.contains('.');
    for strict in [true, false] {
        c.checks += 1;
        let got = api::decode(&t, &api::with(&o, |o| o.strict = strict)).map_err(|e| format!("strict={strict}: {e}\n{t}"))?;
        same(&want, &got).map_err(|e| format!("expansion off (strict={strict}): {e}\nwant {want}\ngot  {got}\n{t}"))?;
    }
    Ok(())
}
