//! Arbitrary and near-valid texts.

use crate::doc::{self, Doc};
use crate::engine::{Case, Src};
use crate::generate::*;
use crate::props::enc::shape;
use serde_json::{Map, Value, json};
use toon::Options;

/// A valid document in a random layout, with options it decodes under.
pub fn valid(s: &mut Src) -> (Doc, Options) {
    let o = options(s);
    let v = if s.chance(1, 2) { value(s, cfg(s)) } else { shape(s) };
    let st = doc::style(s);
    let d = doc::layout(s, &v, st, o.delimiter, o.indent);
    (d, o)
}

const ATOMS: &[&str] = &[
    "a", "b", "x y", "1", "-1", "1.5", "true", "null", "\"q\"", "\"a b\"", "\"\"", "\"a\\nb\"", "\"a.b\"", "a.b", "a.b.c", "05", "-", "é", "日本", "\"x", "\"\\q\"", "1e5", "\"a,b\"", "\"a:b\"", "@", "[1]", "{a}", "😀", "\u{200b}", "\u{200b}a.b", "\"\u{200b}a\"", "1e999", "18446744073709551616", "\u{feff}", "\t", "\u{a0}x",
];
fn atom(s: &mut Src) -> &'static str {
    s.pick::<&str>(ATOMS)
}
fn delim(s: &mut Src) -> char {
    *s.pick(&[',', ',', '|', '\t'])
}
fn joined(s: &mut Src, d: char) -> String {
    let n = 1 + s.below(4);
    let mut t = String::new();
    for i in 0..n {
        if i > 0 {
            t.push(d);
        }
        t.push_str(if s.chance(1, 12) { "" } else { atom(s) });
    }
    t
}
fn count_text(s: &mut Src) -> String {
    match s.weighted(&[12, 1, 1]) {
        0 => s.below(4).to_string(),
        1 => s.pick::<&str>(&["10", "99999999999999999999", "-1", "01", "1.5", "", " 1", "18446744073709551615", "x", "1 ", "#2", "4294967296"]).to_string(),
        _ => s.below(12).to_string(),
    }
}
/// One line body.
pub fn line(s: &mut Src) -> String {
    let hy = if s.chance(1, 3) { "- " } else { "" };
    let d = delim(s);
    let ds = if d == ',' { String::new() } else { d.to_string() };
    let k = if s.chance(1, 5) { "" } else { atom(s) };
    match s.weighted(&[6, 4, 4, 3, 3, 3, 2, 2, 1, 1]) {
        0 => format!("{hy}{k}: {}", atom(s)),
        1 => format!("{hy}{k}:"),
        2 => format!("{hy}{k}[{}{ds}]: {}", count_text(s), joined(s, d)),
        3 => format!("{hy}{k}[{}{ds}]:", count_text(s)),
        4 => format!("{hy}{k}[{}{ds}]{{{}}}:", count_text(s), joined(s, d)),
        5 => joined(s, d),
        6 => format!("{hy}{}", atom(s)),
        7 => "-".into(),
        8 => format!("@{d} {}", joined(s, d)),
        _ => {
            let n = 1 + s.below(5);
            (0..n).map(|_| *s.pick(FRAGS)).collect()
        }
    }
}
/// Lines with indents that wander.
pub fn line_soup(s: &mut Src, indent: usize) -> String {
    let n = 1 + s.count(14);
    let mut lvl = 0usize;
    let mut t = String::new();
    for i in 0..n {
        if i > 0 {
            t.push_str(if s.chance(1, 30) { "\r\n" } else { "\n" });
        }
        if s.chance(1, 12) {
            continue;
        }
        lvl = match s.weighted(&[5, 4, 2, 1]) {
            0 => lvl,
            1 => lvl + 1,
            2 => lvl.saturating_sub(1 + s.below(2)),
            _ => s.below(4),
        };
        let sp = lvl * indent + if s.chance(1, 25) { 1 } else { 0 };
        t.push_str(&" ".repeat(sp));
        if s.chance(1, 300) {
            let more = s.many(3, 70, 600);
            t.push_str(&" ".repeat(more));
        }
        if s.chance(1, 60) {
            t.push('\t');
        }
        let l = line(s);
        t.push_str(&l);
        if s.size > 30 && s.chance(1, 200) {
            // many of the same, or ever deeper
            let deeper = if s.chance(1, 3) { indent } else { 0 };
            for k in 1..s.range(3, 120) {
                t.push('\n');
                t.push_str(&" ".repeat(sp + k * deeper));
                t.push_str(&l);
            }
        }
    }
    if s.chance(1, 4) {
        t.push('\n');
    }
    t
}
pub fn char_soup(s: &mut Src) -> String {
    let n = s.count(30);
    let mut t = String::new();
    for _ in 0..n {
        match s.weighted(&[6, 3, 2]) {
            0 => t.push_str(s.pick::<&str>(FRAGS)),
            1 => t.push_str(s.pick::<&str>(&["\n", "\n  ", "\n    ", ": ", "- ", "[1]", "[2]:", "{a}", "\"", ",", " "])),
            _ => t.push(any_char(s)),
        }
    }
    t
}
/// Random edits of lines and characters.
pub fn mutate(s: &mut Src, t: &str, indent: usize) -> String {
    let mut ls: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
    let k = 1 + s.below(3);
    for _ in 0..k {
        let i = s.below(ls.len());
        match s.below(11) {
            0 => {
                if ls.len() > 1 {
                    ls.remove(i);
                }
            }
            1 => {
                let x = ls[i].clone();
                ls.insert(i, x);
            }
            2 => {
                let j = s.below(ls.len());
                ls.swap(i, j);
            }
            3 => {
                let n = 1 + s.below(2 * indent.max(1));
                ls[i] = format!("{}{}", " ".repeat(n), ls[i]);
            }
            4 => {
                let n = ls[i].len() - ls[i].trim_start_matches(' ').len();
                if n > 0 {
                    let k = 1 + s.below(n);
                    ls[i] = ls[i][k..].to_string();
                }
            }
            5 => {
                let n = s.below(4) * indent;
                let l = format!("{}{}", " ".repeat(n), line(s));
                ls.insert(i, l);
            }
            6 => ls.insert(i, String::new()),
            7 => {
                // insert a fragment
                let cuts: Vec<usize> = ls[i].char_indices().map(|(p, _)| p).chain([ls[i].len()]).collect();
                let p = *s.pick(&cuts);
                ls[i].insert_str(p, s.pick::<&str>(FRAGS));
            }
            8 => {
                // delete a char
                let cuts: Vec<usize> = ls[i].char_indices().map(|(p, _)| p).collect();
                if !cuts.is_empty() {
                    let p = *s.pick(&cuts);
                    ls[i].remove(p);
                }
            }
            9 => {
                // change a digit, a delimiter or a quote
                let cs: Vec<(usize, char)> = ls[i].char_indices().filter(|(_, c)| c.is_ascii_digit() || ",|\t\":[]{}-\\ ".contains(*c)).collect();
                if !cs.is_empty() {
                    let (p, c) = *s.pick(&cs);
                    let r = if c.is_ascii_digit() { (b'0' + s.below(10) as u8) as char } else { *s.pick(&[',', '|', '\t', '"', ':', '[', ']', '{', '}', '-', '\\', ' ', 'a']) };
                    ls[i].replace_range(p..p + 1, &r.to_string());
                }
            }
            _ => {
                // cut the text off
                let cuts: Vec<usize> = ls[i].char_indices().map(|(p, _)| p).chain([ls[i].len()]).collect();
                let p = *s.pick(&cuts);
                ls[i].truncate(p);
                ls.truncate(i + 1);
            }
        }
    }
    ls.join("\n")
}

/// Any text: valid documents, broken ones, mutated ones, line soups, character soups.
pub fn text(s: &mut Src, c: &mut Case) -> (String, Options) {
    let w = s.weighted(&[2, 2, 5, 5, 2]);
    let (t, o) = match w {
        0 | 1 | 2 => {
            let (d, o) = valid(s);
            let p = *s.pick(&[0, 0, 30]);
            let t = match w {
                0 => d.spaced(s, p),
                1 => match d.break_one(s) {
                    Some(b) => b.lines.join("\n"),
                    None => d.text(),
                },
                _ => {
                    let t = d.spaced(s, p);
                    mutate(s, &t, o.indent)
                }
            };
            (t, o)
        }
        3 => {
            let o = options(s);
            (line_soup(s, o.indent), o)
        }
        _ => (char_soup(s), options(s)),
    };
    c.label(["text:valid", "text:broken", "text:mutated", "text:lines", "text:chars"][w]);
    (if s.chance(1, 3) { edges(s, t) } else { t }, o)
}

/// A value whose keys and strings are all different markers.
pub fn marked(s: &mut Src) -> Value {
    fn go(s: &mut Src, depth: usize, n: &mut usize) -> Value {
        let mut m = || {
            *n += 1;
            format!("q{}q", n)
        };
        if depth == 0 {
            return json!(m());
        }
        let few = |s: &mut Src, n: usize| if s.chance(1, 120) { s.range(9, 70) } else { 1 + s.below(n) };
        match s.weighted(&[3, 5, 3, 2, 2]) {
            0 => json!(m()),
            1 => {
                let k = few(s, 3);
                let mut o = Map::new();
                for _ in 0..k {
                    *n += 1;
                    let key = format!("q{}q", n);
                    o.insert(key, go(s, depth - 1, n));
                }
                Value::Object(o)
            }
            2 => {
                let k = 1 + s.below(3);
                Value::Array((0..k).map(|_| go(s, depth - 1, n)).collect())
            }
            3 => {
                let k = few(s, 3);
                Value::Array((0..k).map(|_| json!(m())).collect())
            }
            _ => {
                let cols: Vec<String> = (0..few(s, 2)).map(|_| m()).collect();
                let rows = few(s, 3);
                Value::Array((0..rows).map(|_| Value::Object(cols.iter().map(|k| (k.clone(), json!(m()))).collect())).collect())
            }
        }
    }
    let mut n = 0;
    let d = 1 + s.below(4);
    go(s, d, &mut n)
}
/// A line made of fresh markers.
pub fn marked_line(s: &mut Src, n: &mut usize) -> String {
    fn m(n: &mut usize) -> String {
        *n += 1;
        format!("q{}q", n)
    }
    let hy = if s.chance(1, 3) { "- " } else { "" };
    let d = delim(s);
    let ds = if d == ',' { String::new() } else { d.to_string() };
    let k = if s.chance(1, 6) { String::new() } else { m(n) };
    let cnt = s.below(4);
    let mut row = |s: &mut Src| {
        let c = if s.chance(2, 3) { cnt.max(1) } else { 1 + s.below(3) };
        (0..c).map(|_| m(n)).collect::<Vec<_>>().join(&d.to_string())
    };
    match s.weighted(&[6, 4, 4, 3, 3, 3, 2, 1, 1]) {
        0 => {
            let v = row(s);
            format!("{hy}{k}: {}", v.split(d).next().unwrap())
        }
        1 => format!("{hy}{k}:"),
        2 => format!("{hy}{k}[{cnt}{ds}]: {}", row(s)),
        3 => format!("{hy}{k}[{cnt}{ds}]:"),
        4 => format!("{hy}{k}[{cnt}{ds}]{{{}}}:", row(s)),
        5 => row(s),
        6 => format!("{hy}{}", row(s)),
        7 => "-".into(),
        _ => format!("@{d} {}", row(s)),
    }
}
/// Structural edits only: markers are never duplicated.
pub fn mutate_structure(s: &mut Src, t: &str, indent: usize) -> String {
    let mut ls: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
    let mut n = 1000;
    let k = 1 + s.below(3);
    for _ in 0..k {
        let i = s.below(ls.len());
        match s.below(9) {
            0 => {
                if ls.len() > 1 {
                    ls.remove(i);
                }
            }
            1 | 2 => {
                let j = s.below(ls.len());
                let l = ls.remove(i);
                let j = j.min(ls.len());
                ls.insert(j, l);
            }
            3 => {
                let n = indent * (1 + s.below(2));
                ls[i] = format!("{}{}", " ".repeat(n), ls[i]);
            }
            4 => {
                let sp = ls[i].len() - ls[i].trim_start_matches(' ').len();
                if sp >= indent {
                    ls[i] = ls[i][indent..].to_string();
                }
            }
            5 => {
                let sp = s.below(4) * indent;
                let l = marked_line(s, &mut n);
                ls.insert(i, format!("{}{l}", " ".repeat(sp)));
            }
            6 => ls.insert(i, String::new()),
            7 => {
                // change a count or a delimiter
                let cs: Vec<(usize, char)> = ls[i].match_indices(|c: char| "[],|\t:-{}\"".contains(c)).map(|(p, x)| (p, x.chars().next().unwrap())).collect();
                if !cs.is_empty() {
                    let (p, c) = *s.pick(&cs);
                    if c == '[' && ls[i].as_bytes().get(p + 1).is_some_and(|b| b.is_ascii_digit()) {
                        let r = (b'0' + s.below(5) as u8) as char;
                        ls[i].replace_range(p + 1..p + 2, &r.to_string());
                    } else {
                        let r = *s.pick(&["", ",", "|", "\t", ":", " ", "\"", "-", ": "]);
                        ls[i].replace_range(p..p + 1, r);
                    }
                }
            }
            _ => {
                // a whole block one level in or out
                let lead = |l: &str| l.len() - l.trim_start_matches(' ').len();
                let base = lead(&ls[i]);
                let mut j = i;
                let deeper = s.chance(1, 2);
                while j < ls.len() && (j == i || lead(&ls[j]) > base) {
                    if deeper {
                        ls[j] = format!("{}{}", " ".repeat(indent), ls[j]);
                    } else if lead(&ls[j]) >= indent {
                        ls[j] = ls[j][indent..].to_string();
                    }
                    j += 1;
                }
            }
        }
    }
    ls.join("\n")
}
pub fn marked_soup(s: &mut Src, indent: usize) -> String {
    let lines = if s.size > 30 && s.chance(1, 60) { s.range(11, 90) } else { 1 + s.count(10) };
    let mut n = 0;
    let mut lvl = 0usize;
    let mut t = Vec::new();
    for _ in 0..lines {
        lvl = match s.weighted(&[5, 4, 2, 1]) {
            0 => lvl,
            1 => lvl + 1,
            2 => lvl.saturating_sub(1 + s.below(2)),
            _ => s.below(4),
        };
        t.push(format!("{}{}", " ".repeat(lvl * indent), marked_line(s, &mut n)));
    }
    t.join("\n")
}
/// The markers of a text.
pub fn markers(t: &str) -> Vec<&str> {
    let b = t.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'q' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j > i + 1 && j < b.len() && b[j] == b'q' {
                out.push(&t[i..=j]);
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out
}
