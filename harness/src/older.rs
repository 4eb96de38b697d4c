//! Documents in the older forms that are still read: tables headed `@`, their rows as list items, and
//! lists without a header; as they are, or broken in one defined way.

use crate::doc::{self, Broken, Style};
use crate::engine::Src;
use crate::generate;
use crate::refmodel::num_text;
use serde_json::{Map, Value};

#[derive(Clone, PartialEq)]
enum Role {
    Field,
    /// `key:`, what it holds on the next lines
    Key,
    /// `@,a,b`: cells, and whether below a key
    Head(Vec<String>, bool),
    Row(Vec<String>),
    Item,
    /// a further field of an item
    Rest,
}
struct L {
    level: usize,
    text: String,
    role: Role,
    /// Line of the head the row or item belongs to, or of its first item.
    owner: usize,
    /// What separates columns or cells.
    delim: char,
    quoted: Vec<(usize, usize)>,
}
pub struct Older {
    lines: Vec<L>,
    pub indent: usize,
    pub want: Value,
}
struct B<'a, 'b> {
    s: &'a mut Src<'b>,
    st: Style,
    lines: Vec<L>,
}

fn plain(x: &str) -> bool {
    x.starts_with(|c: char| c.is_ascii_alphabetic()) && x.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !matches!(x, "true" | "false" | "null") && x.parse::<f64>().is_err()
}

impl B<'_, '_> {
    fn few(&mut self) -> usize {
        if self.s.size > 20 && self.s.chance(1, 80) { self.s.range(4, 60) } else { 1 + self.s.below(3) }
    }
    fn text(&mut self, x: &str) -> String {
        if plain(x) && !self.s.chance(1, 4) { x.to_string() } else { doc::quoted_random(self.s, &self.st, x) }
    }
    fn scalar(&mut self) -> (String, Value) {
        let v = generate::simple_primitive(self.s);
        let t = match &v {
            Value::String(x) => self.text(x),
            Value::Number(n) => num_text(n),
            v => v.to_string(),
        };
        (t, v)
    }
    fn key(&mut self, taken: &Map<String, Value>) -> (String, String) {
        let mut k = generate::any_key(self.s);
        while taken.contains_key(&k) {
            k.push('x');
        }
        (self.text(&k), k)
    }
    fn push(&mut self, level: usize, text: String, role: Role, owner: usize, delim: char, quoted: Vec<(usize, usize)>) {
        self.lines.push(L { level, text, role, owner, delim, quoted });
    }
    fn joined(&mut self, prefix: &str, cells: &[String], delim: char) -> (String, Vec<(usize, usize)>) {
        let (mut t, mut q) = (prefix.to_string(), vec![]);
        for (i, c) in cells.iter().enumerate() {
            if i > 0 {
                t.push(delim);
            }
            if self.s.chance(1, 2) && (i > 0 || prefix.starts_with('@')) {
                t.push(' ');
            }
            if c.starts_with('"') {
                q.push((t.len(), t.len() + c.len()));
            }
            t.push_str(c);
        }
        (t, q)
    }
    fn table(&mut self, level: usize, keyed: bool) -> Value {
        let delim = *self.s.pick(&[',', ',', '|', '\t']);
        let n = self.few();
        let mut cols = Map::new();
        let mut heads = vec![];
        for _ in 0..n {
            let (t, k) = self.key(&cols);
            cols.insert(k, Value::Null);
            heads.push(t);
        }
        let (t, q) = self.joined(&format!("@{delim}"), &heads, delim);
        let owner = self.lines.len();
        self.push(level, t, Role::Head(heads, keyed), owner, delim, q);
        let mut rows = vec![];
        for _ in 0..self.few() {
            let cells: Vec<_> = (0..n).map(|_| self.scalar()).collect();
            let texts: Vec<String> = cells.iter().map(|c| c.0.clone()).collect();
            let (t, q) = self.joined("- ", &texts, delim);
            self.push(level, t, Role::Row(texts), owner, delim, q);
            rows.push(Value::Object(cols.keys().cloned().zip(cells.into_iter().map(|c| c.1)).collect()));
        }
        Value::Array(rows)
    }
    fn list(&mut self, level: usize) -> Value {
        let owner = self.lines.len();
        let mut items = vec![];
        for _ in 0..self.few() {
            if self.s.chance(2, 3) {
                let (t, v) = self.scalar();
                let q = if t.starts_with('"') { vec![(2, 2 + t.len())] } else { vec![] };
                self.push(level, format!("- {t}"), Role::Item, owner, ',', q);
                items.push(v);
            } else {
                let mut m = Map::new();
                for i in 0..self.few() {
                    let (k, name) = self.key(&m);
                    let (t, v) = self.scalar();
                    m.insert(name, v);
                    let first = i == 0;
                    let text = format!("{}{k}: {t}", if first { "- " } else { "" });
                    let q = if t.starts_with('"') { vec![(text.len() - t.len(), text.len())] } else { vec![] };
                    self.push(if first { level } else { level + 1 }, text, if first { Role::Item } else { Role::Rest }, owner, ',', q);
                }
                items.push(Value::Object(m));
            }
        }
        Value::Array(items)
    }
    fn object(&mut self, level: usize) -> Value {
        let mut m = Map::new();
        for _ in 0..self.few() {
            let (k, name) = self.key(&m);
            let way = if level > 3 { self.s.below(4) } else { self.s.below(6) };
            let at = self.lines.len();
            if way == 0 {
                let (t, v) = self.scalar();
                let text = format!("{k}: {t}");
                let q = if t.starts_with('"') { vec![(text.len() - t.len(), text.len())] } else { vec![] };
                self.push(level, text, Role::Field, at, ',', q);
                m.insert(name, v);
                continue;
            }
            self.push(level, format!("{k}:"), Role::Key, at, ',', vec![]);
            let v = match way {
                1 | 2 => self.table(level + 1, true),
                3 => self.list(level + 1),
                _ => self.object(level + 1),
            };
            m.insert(name, v);
        }
        Value::Object(m)
    }
}

pub fn layout(s: &mut Src, indent: usize) -> Older {
    let st = doc::style(s);
    let mut b = B { s, st, lines: vec![] };
    let want = match b.s.below(6) {
        0 => b.table(0, false),
        1 => b.list(0),
        _ => b.object(0),
    };
    Older { lines: b.lines, indent, want }
}

impl Older {
    fn lines(&self) -> Vec<String> {
        self.lines.iter().map(|l| format!("{}{}", " ".repeat(l.level * self.indent), l.text)).collect()
    }
    pub fn text(&self) -> String {
        self.lines().join("\n")
    }
    pub fn break_one(&self, s: &mut Src) -> Option<Broken> {
        let mut ls = self.lines();
        let n = ls.len();
        let pre = |i: usize| " ".repeat(self.lines[i].level * self.indent);
        let choose = |s: &mut Src, f: &dyn Fn(&L) -> bool| -> Option<usize> {
            let c: Vec<usize> = (0..n).filter(|i| f(&self.lines[*i])).collect();
            if c.is_empty() { None } else { Some(*s.pick(&c)) }
        };
        let is_row = |l: &L| matches!(l.role, Role::Row(_));
        let is_head = |l: &L| matches!(l.role, Role::Head(..));
        let done = |lines: Vec<String>, what: &'static str, allowed: Vec<usize>, strict_only: bool| Some(Broken { lines, what, allowed, strict_only });
        match s.below(10) {
            0 => {
                let i = choose(s, &is_row)?;
                let Role::Row(cells) = &self.lines[i].role else { return None };
                let mut cells = cells.clone();
                if cells.len() > 1 && s.chance(1, 2) {
                    cells.remove(s.below(cells.len()));
                } else {
                    cells.insert(s.below(cells.len() + 1), "1".into());
                }
                ls[i] = format!("{}- {}", pre(i), cells.join(&self.lines[i].delim.to_string()));
                done(ls, "older-row-width", vec![i + 1], true)
            }
            1 => {
                let i = choose(s, &is_row)?;
                ls[i].push(self.lines[i].delim);
                done(ls, "older-row-trailing-delimiter", vec![i + 1], true)
            }
            2 => {
                let i = choose(s, &is_head)?;
                let Role::Head(cols, _) = &self.lines[i].role else { return None };
                let d = self.lines[i].delim;
                ls[i].push(d);
                ls[i].push_str(&cols[s.below(cols.len())]);
                for j in (0..n).filter(|j| is_row(&self.lines[*j]) && self.lines[*j].owner == i) {
                    ls[j].push(d);
                    ls[j].push('1');
                }
                done(ls, "older-repeated-column", vec![i + 1], true)
            }
            3 => {
                let i = choose(s, &|l| matches!(l.role, Role::Head(_, true)))?;
                let k = (0..n).filter(|j| is_row(&self.lines[*j]) && self.lines[*j].owner == i).count();
                ls.drain(i + 1..i + 1 + k);
                done(ls, "older-table-without-rows", vec![i + 1], true)
            }
            4 => {
                // between a head and its rows, or between rows or items
                let i = choose(s, &|l| is_row(l) || matches!(l.role, Role::Item | Role::Rest))?;
                if self.lines[i].owner == i {
                    return None;
                }
                ls.insert(i, " ".repeat(*s.pick(&[0usize, 0, 1, 2])));
                done(ls, "older-blank-inside", vec![i + 1], true)
            }
            5 => {
                let i = choose(s, &|l| !l.quoted.is_empty())?;
                let l = &self.lines[i];
                let (a, b) = *s.pick(&l.quoted);
                let e = *s.pick(&["\\q", "\\x41", "\\u12g4", "\\ud800", "\\0"]);
                let at = if s.chance(1, 2) { b - 1 } else { a + 1 };
                ls[i] = format!("{}{}{e}{}", pre(i), &l.text[..at], &l.text[at..]);
                done(ls, "older-bad-escape", vec![i + 1], false)
            }
            6 => {
                let i = choose(s, &|l| is_head(l))?;
                let Role::Head(cols, _) = &self.lines[i].role else { return None };
                let e = *s.pick(&[";", ":", "/", "!"]);
                ls[i] = format!("{}@{e} {}", pre(i), cols.join(e));
                let mut ok = vec![i + 1];
                ok.push(i + 2);
                done(ls, "older-head-delimiter", ok, true)
            }
            7 => {
                if self.indent < 2 {
                    return None;
                }
                let i = choose(s, &|_| true)?;
                ls[i] = format!("{}{}", " ".repeat(1 + s.below(self.indent - 1)), ls[i]);
                done(ls, "older-indent-multiple", vec![i + 1], true)
            }
            8 => {
                let i = choose(s, &|l| is_head(l))?;
                let Role::Head(cols, _) = &self.lines[i].role else { return None };
                let d = self.lines[i].delim;
                let mut cols = cols.clone();
                let k = s.below(cols.len());
                cols[k] = (*s.pick(&["a#b[", "x{", "true", "-", "12", "null", "1.5"])).to_string();
                ls[i] = format!("{}@{d}{}", pre(i), cols.join(&d.to_string()));
                done(ls, "older-unquoted-column", vec![i + 1], true)
            }
            _ => {
                let i = choose(s, &|l| is_row(l) || l.role == Role::Item)?;
                if self.lines[i].owner == i {
                    return None;
                }
                ls[i] = format!("{}{}", " ".repeat(self.indent), ls[i]);
                done(ls, "older-too-deep", vec![i + 1, self.lines[i].owner + 1], true)
            }
        }
    }
}
