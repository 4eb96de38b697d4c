//! Words of the source under test.
//!
//! A change to the library often depends on the constants it brings: a limit, a length, a special
//! name, a character. The literals in the source that are not in `tools/source-words.json` (those of
//! the tree these checks were written against) are what generators put in now and then, and the
//! sizes they try. That only shifts where the search looks; what has to hold is the same for every
//! input, and on the tree as it was there are no such words.

use crate::engine::Src;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Words {
    pub texts: Vec<String>,
    pub numbers: Vec<u64>,
    /// Numbers that may be a size.
    pub sizes: Vec<usize>,
}
static WORDS: OnceLock<Words> = OnceLock::new();

pub fn words() -> &'static Words {
    WORDS.get_or_init(|| {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let known: BTreeMap<String, u64> =
            std::fs::read_to_string(format!("{root}/tools/source-words.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
        if known.is_empty() {
            return Words::default();
        }
        let (mut texts, mut numbers) = (Vec::new(), Vec::new());
        for (w, n) in all() {
            if n <= known.get(&w).copied().unwrap_or(0) {
                continue;
            }
            match w.split_once(':') {
                Some(("t", t)) => texts.push(t.to_string()),
                Some((_, i)) => numbers.extend(i.parse::<u64>()),
                None => {}
            }
        }
        made(texts, numbers)
    })
}
fn made(mut texts: Vec<String>, mut numbers: Vec<u64>) -> Words {
    texts.retain(|t| !t.is_empty() && t.chars().count() <= 40);
    let plain = numbers.clone();
    for n in &plain {
        if let Some(c) = u32::try_from(*n).ok().filter(|n| *n >= 0x20).and_then(char::from_u32) {
            texts.push(c.to_string());
        }
        if *n <= 40 && *n >= 3 {
            numbers.push(1 << n);
        }
        numbers.extend(plain.iter().filter_map(|m| m.checked_mul(*n)).filter(|p| *p > *n && plain.len() < 8));
    }
    numbers.sort_unstable();
    numbers.dedup();
    let sizes = numbers.iter().filter(|n| **n >= 2 && **n <= 70_000).map(|n| *n as usize).collect();
    Words { texts, numbers, sizes }
}
/// As a replay file has it.
pub fn saved() -> Value {
    let w = words();
    json!({"texts": w.texts, "numbers": w.numbers, "sizes": w.sizes})
}
pub fn load(v: &Value) {
    let list = |k: &str| v[k].as_array().cloned().unwrap_or_default();
    let numbers = |k: &str| list(k).iter().filter_map(|x| x.as_u64()).collect::<Vec<_>>();
    let _ = WORDS.set(Words {
        texts: list("texts").iter().filter_map(|x| x.as_str().map(|x| x.to_string())).collect(),
        numbers: numbers("numbers"),
        sizes: numbers("sizes").into_iter().map(|n| n as usize).collect(),
    });
}

/// A text around one of the words. Draws nothing when there are none.
pub fn text(s: &mut Src) -> Option<String> {
    let w = words();
    if w.texts.is_empty() || !s.chance(1, 8) {
        return None;
    }
    let t = s.pick(&w.texts).clone();
    Some(match s.below(10) {
        0..5 => t,
        5 => format!("{t}{}", s.pick::<&str>(&["x", " ", "1", ":", "\"", "é"])),
        6 => format!("{}{t}", s.pick::<&str>(&["x", " ", "1", "-", "\"", "é"])),
        7 => t.to_uppercase(),
        8 => format!("ab{t}cd{t}"),
        _ => t.repeat(2 + s.below(3)),
    })
}
/// A word that is an identifier.
pub fn ident(s: &mut Src) -> Option<String> {
    let w = words();
    if w.texts.is_empty() {
        return None;
    }
    let fits = |t: &&String| t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !t.starts_with(|c: char| c.is_ascii_digit());
    let c: Vec<&String> = w.texts.iter().filter(fits).collect();
    if c.is_empty() || !s.chance(1, 10) { None } else { Some(s.pick(&c).to_string()) }
}
/// A size in lo..=hi about one of the numbers, with the given probability.
pub fn size(s: &mut Src, lo: usize, hi: usize, num: u64, den: u64) -> Option<usize> {
    let w = words();
    if w.sizes.is_empty() {
        return None;
    }
    let c: Vec<usize> = w.sizes.iter().copied().filter(|n| *n >= lo && *n <= hi).collect();
    if c.is_empty() || !s.chance(num, den) {
        return None;
    }
    let n = *s.pick(&c);
    Some((n + 3).saturating_sub(s.below(5)).clamp(lo, hi))
}
pub fn number(s: &mut Src) -> Option<u64> {
    let w = words();
    if w.numbers.is_empty() || !s.chance(1, 8) {
        return None;
    }
    let n = *s.pick(&w.numbers);
    Some(n.wrapping_add(2).wrapping_sub(s.below(4) as u64))
}

/// Every literal in the sources with how often it occurs.
pub fn all() -> BTreeMap<String, u64> {
    let mut o = BTreeMap::new();
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    fn walk(d: &Path, o: &mut BTreeMap<String, u64>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, o);
            } else if p.extension().is_some_and(|x| x == "rs") {
                for w in literals(&std::fs::read_to_string(&p).unwrap_or_default()) {
                    *o.entry(w).or_default() += 1;
                }
            }
        }
    }
    for e in std::fs::read_dir(format!("{repo}/crates")).into_iter().flatten().flatten() {
        walk(&e.path().join("src"), &mut o);
    }
    o
}
/// The literals of one file: `t:` a text, a character or bytes, `i:` a whole number.
pub fn literals(src: &str) -> Vec<String> {
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut o = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            let mut depth = 0;
            while i < c.len() {
                match (c[i], at(i + 1)) {
                    ('/', '*') => {
                        depth += 1;
                        i += 2;
                    }
                    ('*', '/') => {
                        depth -= 1;
                        i += 2;
                        if depth == 0 {
                            break;
                        }
                    }
                    _ => i += 1,
                }
            }
        } else if x == 'r' && (at(i + 1) == '"' || at(i + 1) == '#' && matches!(at(i + 2), '"' | '#')) {
            let mut j = i + 1;
            while at(j) == '#' {
                j += 1;
            }
            let hashes = j - i - 1;
            let start = j + 1;
            let mut e = start;
            while e < c.len() && !(c[e] == '"' && (1..=hashes).all(|k| at(e + k) == '#')) {
                e += 1;
            }
            o.push(format!("t:{}", c[start.min(c.len())..e.min(c.len())].iter().collect::<String>()));
            i = e + 1 + hashes;
        } else if x == '"' {
            let (t, e) = quoted(&c, i + 1, '"');
            o.push(format!("t:{t}"));
            i = e;
        } else if x == '\'' {
            // a character, unless it is a lifetime
            if at(i + 1) == '\\' || at(i + 2) == '\'' {
                let (t, e) = quoted(&c, i + 1, '\'');
                o.push(format!("t:{t}"));
                i = e;
            } else {
                i += 1;
            }
        } else if x.is_alphabetic() || x == '_' {
            let mut j = i;
            while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            // b"…", br"…" and b'…' go on with the literal
            i = if j - i == 1 && x == 'b' || j - i == 2 && x == 'b' && at(i + 1) == 'r' && at(j) == '"' { i + 1 } else { j };
        } else if x.is_ascii_digit() {
            let mut j = i;
            while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            let t: String = c[i..j].iter().filter(|x| **x != '_').collect();
            let t = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].iter().find_map(|e| t.strip_suffix(e)).unwrap_or(&t);
            let n = match t.get(..2) {
                Some("0x") => u64::from_str_radix(&t[2..], 16),
                Some("0b") => u64::from_str_radix(&t[2..], 2),
                Some("0o") => u64::from_str_radix(&t[2..], 8),
                _ => t.parse(),
            };
            if let Ok(n) = n {
                o.push(format!("i:{n}"));
            }
            i = j;
        } else {
            i += 1;
        }
    }
    o
}
/// What stands between here and the closing quote, and where it goes on.
fn quoted(c: &[char], mut i: usize, end: char) -> (String, usize) {
    let mut o = String::new();
    while i < c.len() && c[i] != end {
        if c[i] != '\\' {
            o.push(c[i]);
            i += 1;
            continue;
        }
        i += 1;
        match c.get(i) {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('0') => o.push('\0'),
            Some('x') => {
                let h: String = c[i + 1..].iter().take(2).collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                i += 2;
            }
            Some('u') => {
                let h: String = c[i + 1..].iter().skip(1).take_while(|x| **x != '}').collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                i += h.chars().count() + 2;
            }
            Some('\n') => {
                while c.get(i + 1).is_some_and(|x| x.is_whitespace()) {
                    i += 1;
                }
            }
            Some(x) => o.push(*x),
            None => {}
        }
        i += 1;
    }
    (o, i + 1)
}
