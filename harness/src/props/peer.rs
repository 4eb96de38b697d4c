//! C20 and C21: the same cases under another feature set, and differentials against the default
//! build, which runs as a peer process (`toon-verif serve`) answering one request per line.

use super::{dec, enc, paths, ser};
use crate::api;
use crate::doc;
use crate::engine::*;
use crate::generate::*;
use crate::runner::Prop;
use crate::soup;
use crate::typed::*;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use toon::Options;

/// What decoding gives, written out exactly (every f64 has its own spelling).
fn outcome<T: std::fmt::Debug>(r: Result<T, api::DecErr>) -> String {
    match r {
        Ok(v) => format!("value {v:?}"),
        Err(e) => match e.line {
            Some(l) => format!("rejected at line {l}"),
            None => "rejected".into(),
        },
    }
}
fn guard(f: impl FnOnce() -> String) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into())
}

/// The encode probes. The alloc build does not fold keys: it is compared with the unfolded text.
fn probe_encode(kind: u64, folding: bool, s: &mut Src) -> (String, String) {
    let mut o = fold_options(s);
    if !folding && !cfg!(feature = "set-alloc") {
        o.key_folding = toon::KeyFolding::Off;
    }
    let show = |r: Result<String, String>| r.map(|t| format!("text {t}")).unwrap_or_else(|_| "error".into());
    match kind {
        0 => {
            let v = value(s, cfg(s));
            (format!("{} {v}", opts_text(&o)), guard(|| show(api::encode(&v, &o))))
        }
        1 => {
            let v = enc::shape(s);
            (format!("{} {v}", opts_text(&o)), guard(|| show(api::encode(&v, &o))))
        }
        2 => {
            let v = near_table(s, cfg(s));
            (format!("{} {v}", opts_text(&o)), guard(|| show(api::encode(&v, &o))))
        }
        3 => {
            let v = enc::chainy(s, true);
            (format!("{} {v}", opts_text(&o)), guard(|| show(api::encode(&v, &o))))
        }
        4 => {
            let v = ser::odd_keys(s).0;
            (format!("{} {v:?}", opts_text(&o)), guard(|| show(api::encode(&v, &o))))
        }
        _ => {
            let (t, v) = ser::typed_value(s, true);
            (format!("{} {t:?} {v:?}", opts_text(&o)), guard(|| show(api::encode(&v, &o))))
        }
    }
}
fn typed_schema(s: &mut Src) -> (Ty, Ty, Tv) {
    let (t, v) = ser::typed_value(s, true);
    let mut g = Gen { budget: 5, any_float: true };
    let t2 = if s.chance(1, 2) { mutate_ty(s, &mut g, &t) } else { t.clone() };
    (t, t2, v)
}
fn decode_typed(t: &Ty, text: &str, o: &Options) -> String {
    guard(|| outcome(with_schema(t, || api::decode_as::<Dyn>(text, o)).map(|d| d.0)))
}

/// Into a self-describing target that is not serde_json's own.
fn decode_any(text: &str, o: &Options) -> String {
    guard(|| outcome(api::decode_as::<dec::Any>(text, o).map(|a| a.0)))
}

fn opts_json(o: &Options) -> Value {
    json!([o.indent, o.strict, matches!(o.expand_paths, toon::ExpandPaths::Safe), format!("{:?}", o.delimiter)])
}
fn opts_of(v: &Value) -> Options {
    let mut o = Options { indent: v[0].as_u64().unwrap() as usize, strict: v[1].as_bool().unwrap(), ..Default::default() };
    if v[2].as_bool().unwrap() {
        o.expand_paths = toon::ExpandPaths::Safe;
    }
    o.delimiter = *enc_delims().iter().find(|d| format!("{d:?}") == v[3].as_str().unwrap()).unwrap();
    o
}
fn enc_delims() -> [toon::Delimiter; 3] {
    crate::doc::delims()
}

fn answer(r: &Value) -> String {
    let size = r["size"].as_u64().unwrap_or(0) as u32;
    let ch: Vec<u64> = r["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
    let mut s = Src::replay(&ch, size);
    match r["op"].as_str().unwrap() {
        "encode" => probe_encode(r["kind"].as_u64().unwrap(), r["folding"].as_bool().unwrap(), &mut s).1,
        "decode" => guard(|| outcome(api::decode(r["text"].as_str().unwrap(), &opts_of(&r["o"])))),
        "any" => decode_any(r["text"].as_str().unwrap(), &opts_of(&r["o"])),
        "typed" => {
            let (_, t2, _) = typed_schema(&mut s);
            decode_typed(&t2, r["text"].as_str().unwrap(), &opts_of(&r["o"]))
        }
        x => panic!("unknown request {x}"),
    }
}

/// The peer's side.
pub fn serve() -> i32 {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let r: Value = serde_json::from_str(&line).expect("request");
        let a = answer(&r);
        if writeln!(out, "{}", Value::String(a)).and_then(|()| out.flush()).is_err() {
            break;
        }
    }
    0
}

struct Peer {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}
fn ask(r: Value) -> Result<String, String> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            let exe = std::env::var("VERIF_PEER").expect("VERIF_PEER");
            let mut child = Command::new(exe).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("peer");
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            *p = Some(Peer { child, to, from });
        }
        let q = p.as_mut().unwrap();
        let mut line = String::new();
        let ok = writeln!(q.to, "{r}").and_then(|()| q.to.flush()).and_then(|()| q.from.read_line(&mut line));
        match ok {
            Ok(n) if n > 0 => Ok(serde_json::from_str(&line).expect("answer")),
            _ => {
                *p = None;
                Err("the default build's process died on this case".into())
            }
        }
    })
}

fn compare(mine: &str, theirs: &str) -> Result<(), String> {
    if mine == theirs { Ok(()) } else { Err(format!("this build and the default build differ\ndefault: {theirs}\nthis:    {mine}")) }
}

const FOLDING: bool = cfg!(not(feature = "set-alloc"));

fn encode_diff(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let kind = s.below(6) as u64;
    c.label(["any", "shape", "table", "chains", "odd keys", "typed"][kind as usize]);
    let from = s.taken.len();
    let (repr, mine) = probe_encode(kind, FOLDING, s);
    c.repr = repr;
    library_call();
    c.nontrivial = mine.contains('\n') || mine.contains('[');
    let theirs = ask(json!({"op": "encode", "kind": kind, "folding": FOLDING, "size": s.size, "choices": &s.taken[from..]}))?;
    compare(&mine, &theirs)
}
fn decode_diff(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, mut o) = soup::text(s, c);
    o.strict = !s.chance(1, 3);
    if s.chance(1, 3) {
        o.expand_paths = toon::ExpandPaths::Safe;
    }
    c.repr = format!("{} {:?}", opts_text(&o), t);
    let mine = guard(|| outcome(api::decode(&t, &o)));
    c.nontrivial = t.contains('\n');
    c.label(if mine.starts_with("value") { "accepted" } else { "rejected" });
    let theirs = ask(json!({"op": "decode", "text": t, "o": opts_json(&o)}))?;
    compare(&mine, &theirs)
}
/// The older form of a table on a hyphen line, its rows hyphens too. Only the direct deserializer
/// reads it.
fn hyphen_rows(t: &str) -> bool {
    let ls: Vec<&str> = t.lines().map(|l| l.trim_start_matches(' ')).filter(|l| !l.trim().is_empty()).collect();
    ls.windows(2).any(|w| w[0].starts_with("- ") && w[0].contains('{') && w[0].trim_end().ends_with(':') && w[1].starts_with('-'))
}
fn compare_typed(mine: &str, theirs: &str, t: &str, c: &mut Case) -> Result<(), String> {
    if cfg!(feature = "set-all") && mine.starts_with("value") && theirs.starts_with("rejected") && hyphen_rows(t) {
        c.label("hyphens before rows");
        return Ok(());
    }
    compare(mine, theirs)
}
/// A text for a value of the schema: the library's, or another layout of the same data, or either
/// of them with changes.
fn typed_text(s: &mut Src, v: &Tv, o: &Options, c: &mut Case) -> String {
    let mut text = api::encode(v, o).unwrap_or_default();
    if s.chance(1, 2) {
        if let Ok(j) = serde_json::to_value(v) {
            let st = doc::style(s);
            let d = doc::layout(s, &j, st, o.delimiter, o.indent);
            let p = *s.pick(&[0, 0, 20]);
            text = match s.below(6) {
                0 => d.break_one(s).map(|b| b.lines.join("\n")).unwrap_or_else(|| d.text()),
                _ => d.spaced(s, p),
            };
            c.label("another layout");
        }
    }
    if s.chance(1, 3) {
        text = soup::mutate(s, &text, o.indent.max(1));
        c.label("mutated");
    }
    text
}
fn typed_diff(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let from = s.taken.len();
    let (t, t2, v) = typed_schema(s);
    let choices: Vec<u64> = s.taken[from..].to_vec();
    let mut o = options(s);
    let text = typed_text(s, &v, &o, c);
    o.strict = !s.chance(1, 3);
    if s.chance(1, 6) {
        o.expand_paths = toon::ExpandPaths::Safe;
    }
    c.repr = format!("{} {t:?} {t2:?} {:?}", opts_text(&o), text);
    let mine = decode_typed(&t2, &text, &o);
    c.nontrivial = text.contains('\n');
    c.label(if mine.starts_with("value") { "accepted" } else { "rejected" });
    let theirs = ask(json!({"op": "typed", "text": text, "o": opts_json(&o), "size": s.size, "choices": choices}))?;
    compare_typed(&mine, &theirs, &text, c)
}
fn any_diff(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let (t, mut o) = soup::text(s, c);
    o.strict = !s.chance(1, 3);
    if s.chance(1, 6) {
        o.expand_paths = toon::ExpandPaths::Safe;
    }
    c.repr = format!("{} {:?}", opts_text(&o), t);
    let mine = decode_any(&t, &o);
    c.nontrivial = t.contains('\n');
    c.label(if mine.starts_with("value") { "accepted" } else { "rejected" });
    let theirs = ask(json!({"op": "any", "text": t, "o": opts_json(&o)}))?;
    compare_typed(&mine, &theirs, &t, c)
}

/// The older table form (see `hyphen_rows`) reads as the same table without the hyphens.
#[cfg(feature = "set-all")]
fn hyphen_form(s: &mut Src, c: &mut Case) -> Result<(), String> {
    let o = Options { indent: *s.pick(&[2, 1, 3, 4]), strict: !s.chance(1, 3), ..Default::default() };
    let d = *s.pick(&[",", "|", "\t"]);
    let mark = if d == "," { "" } else { d };
    let pad = |n: usize| " ".repeat(n * o.indent);
    let n = 1 + s.count(3);
    let mut old = format!("items[{n}]:\n");
    let mut new = old.clone();
    for _ in 0..n {
        let cols = 1 + s.below(3);
        let names: Vec<String> = (0..cols).map(|i| format!("{}{i}", s.pick(&["a", "b.", "é", "_"]))).collect();
        let rows = s.below(4);
        let head = format!("{}- t[{rows}{mark}]{{{}}}:\n", pad(1), names.join(d));
        old.push_str(&head);
        new.push_str(&head);
        for _ in 0..rows {
            let cells: Vec<String> = (0..cols).map(|_| s.pick(&["1", "x", "null", "-5", "\"q, |\t:\"", "true", "1.5", "\"a b\"", "e1", "\"\""]).to_string()).collect();
            old.push_str(&format!("{}- {}\n", pad(2), cells.join(d)));
            new.push_str(&format!("{}{}\n", pad(3), cells.join(d)));
        }
        if s.chance(1, 2) {
            let more = format!("{}after: {}\n", pad(2), s.below(9));
            old.push_str(&more);
            new.push_str(&more);
        }
    }
    c.repr = format!("{} {old:?}", opts_text(&o));
    c.nontrivial = old != new;
    let (a, b) = (decode_any(&old, &o), decode_any(&new, &o));
    if !b.starts_with("value") {
        return Err(format!("rejected: {b}\n{new}"));
    }
    if a != b {
        return Err(format!("rows with hyphens read otherwise\nwithout {b}\nwith    {a}\n{old}"));
    }
    Ok(())
}

/// Checks of other properties, run under this feature set, too.
fn reuse(from: Vec<Prop>, pick: &[(&str, &'static [(&'static str, &'static str)])]) -> Vec<Sub> {
    let mut out = Vec::new();
    for p in from {
        let Some((_, names)) = pick.iter().find(|(id, _)| *id == p.id) else { continue };
        for s in p.subs {
            if let Some((_, name)) = names.iter().find(|(n, _)| *n == s.name) {
                out.push(Sub { name, f: s.f, quick: s.quick / 8, thorough: s.thorough / 4, max_size: s.max_size });
            }
        }
    }
    out
}
fn others() -> Vec<Prop> {
    let mut v = enc::props();
    v.extend(dec::props());
    #[cfg(feature = "inner")]
    v.extend(super::model::props());
    v.extend(paths::props());
    v.extend(ser::props());
    v
}

pub fn props() -> Vec<Prop> {
    let mut subs = vec![
        Sub { name: "encode-same", f: encode_diff, quick: 80_000, thorough: 3_000_000, max_size: 80 },
        Sub { name: "decode-same", f: decode_diff, quick: 100_000, thorough: 4_000_000, max_size: 70 },
        Sub { name: "typed-same", f: typed_diff, quick: 100_000, thorough: 4_000_000, max_size: 70 },
        Sub { name: "any-same", f: any_diff, quick: 60_000, thorough: 3_000_000, max_size: 70 },
    ];
    let common: &[(&str, &'static [(&'static str, &'static str)])] = &[
        ("C01", &[("any-value", "C01-any-value"), ("small-shapes", "C01-small-shapes")]),
        ("C02", &[("any-value", "C02-any-value"), ("small-shapes", "C02-small-shapes"), ("tables", "C02-tables")]),
        ("C03", &[("json-number", "C03-json-number"), ("typed-number", "C03-typed-number"), ("token", "C03-token")]),
        ("C04", &[("as-value", "C04-as-value"), ("as-key", "C04-as-key")]),
        ("C05", &[("any-value", "C05-any-value"), ("small-shapes", "C05-small-shapes"), ("older-forms", "C05-older-forms"), ("loose", "C05-loose")]),
        ("C06", &[("broken", "C06-broken"), ("older-broken", "C06-older-broken"), ("no-silent-drop", "C06-no-silent-drop")]),
        ("C08", &[("texts", "C08-texts")]),
        ("C09", &[("texts", "C09-texts")]),
        ("C11", &[("round-trip", "C11-round-trip"), ("mismatch", "C11-mismatch"), ("derived", "C11-derived")]),
        ("C13", &[("merge", "C13-merge"), ("off", "C13-off")]),
        ("C15", &[("broken", "C15-broken"), ("older-broken", "C15-older-broken"), ("broken-spaced", "C15-broken-spaced")]),
    ];
    subs.extend(reuse(others(), common));
    #[cfg(feature = "set-alloc")]
    {
        subs.extend(reuse(
            others(),
            &[
                ("C14", &[("layouts", "C14-layouts"), ("histories", "C14-histories")]),
                ("C10", &[("single-use", "C10-single-use")]),
                ("C16", &[("failing", "C16-failing"), ("unrepresentable", "C16-unrepresentable")]),
                ("C22", &[("texts", "C22-texts")]),
                ("C23", &[("texts", "C23-texts"), ("numbers", "C23-numbers")]),
            ],
        ));
        vec![Prop {
            id: "C20",
            rule: "encode-same, decode-same, typed-same, any-same: the same generated value, text or schema goes through this build and, in a peer process, through the default build; the outcomes (text, value, or rejection with its line) must be equal. CNN-*: the checks of the other properties, run in this build. Non-trivial: as for the property reused; for the differentials, more than one line or an array. Distinct by case.",
            subs,
            known: vec![],
        }]
    }
    #[cfg(feature = "set-all")]
    {
        subs.push(Sub { name: "hyphen-rows", f: hyphen_form, quick: 10_000, thorough: 400_000, max_size: 50 });
        subs.extend(reuse(
            others(),
            &[
                ("C10", &[("any-value", "C10-any-value"), ("typed", "C10-typed"), ("single-use", "C10-single-use"), ("chains", "C10-chains")]),
                ("C12", &[("lossless", "C12-lossless"), ("exact-folds", "C12-exact-folds"), ("collisions", "C12-collisions")]),
                ("C16", &[("failing", "C16-failing"), ("unrepresentable", "C16-unrepresentable")]),
                ("C14", &[("texts", "C14-texts"), ("layouts", "C14-layouts"), ("histories", "C14-histories")]),
                ("C22", &[("texts", "C22-texts")]),
                ("C23", &[("texts", "C23-texts"), ("numbers", "C23-numbers")]),
            ],
        ));
        vec![Prop {
            id: "C21",
            rule: "encode-same, decode-same, typed-same, any-same: the same generated value, text or schema goes through this build and, in a peer process, through the default build; the outcomes (text, value, or rejection with its line) must be equal. CNN-*: the checks of the other properties, run in this build. Non-trivial: as for the property reused; for the differentials, more than one line or an array. Distinct by case.",
            subs,
            known: vec![],
        }]
    }
    #[cfg(feature = "set-default")]
    {
        let _ = subs;
        vec![]
    }
}
