//! Valid TOON documents that are not in canonical form: a value is laid out with random but valid
//! choices (quoting, escapes, number spellings, array forms, delimiters, spaces, blank lines), with
//! enough bookkeeping per line to break the document in one defined way afterwards.

use crate::engine::Src;
use crate::refmodel::{self, Quote, is_prim, key_plain, num_text, table_columns};
use serde_json::{Map, Number, Value};
use toon::Delimiter;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Inline,
    List,
    Table,
}

#[derive(Clone, Debug)]
pub struct Header {
    /// Byte range of the declared count in the line's text.
    pub count: (usize, usize),
    pub len: usize,
    pub form: Form,
    pub delim: char,
    pub cols: usize,
    /// Byte range of the columns, between the braces.
    pub braces: (usize, usize),
    pub last_line: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// `key: value`
    ScalarField,
    /// `key:` with or without children
    ObjectField,
    /// a line that is or starts with an array header
    ArrayHeader,
    /// `- value`
    ScalarItem,
    /// `-`
    BareItem,
    /// a table row
    Row,
    /// the only line of a primitive document
    Root,
}

#[derive(Clone, Debug)]
pub struct Line {
    pub level: usize,
    pub text: String,
    pub kind: Kind,
    /// The line starts with a hyphen.
    pub hyphen: bool,
    pub header: Option<Header>,
    /// Header lines of the arrays in whose body this line lies, innermost last.
    pub inside: Vec<usize>,
    /// Quoted tokens: byte range (quotes included), whether it is a key.
    pub quoted: Vec<(usize, usize, bool)>,
    /// For rows: byte ranges of the cells; for inline arrays: of the values.
    pub cells: Vec<(usize, usize)>,
    /// Byte range of the key token and position of the colon that ends the key or header.
    pub key: Option<(usize, usize)>,
    pub colon: Option<usize>,
}

pub struct Doc {
    pub lines: Vec<Line>,
    pub indent: usize,
    pub want: Value,
}

#[derive(Clone, Copy)]
pub struct Style {
    /// Probability weights in percent.
    pub quote: u64,
    pub escapes: u64,
    pub spell: u64,
    pub spaces: u64,
    pub reform: u64,
    pub mix_delims: bool,
    pub empty_cells: bool,
    pub bare_hyphen: bool,
    pub nested_tables: bool,
    /// Identifier keys that contain dots may be quoted (with expansion on that changes meaning).
    pub quote_dotted: bool,
    /// Keys in the value carry two leading characters: `q` (to be quoted) or `u` (as is), and a
    /// number that only tells equal keys apart.
    pub tagged: bool,
}
pub fn style(s: &mut Src) -> Style {
    let lv = |s: &mut Src| *s.pick(&[0, 10, 30, 60]);
    Style {
        quote: lv(s),
        escapes: lv(s),
        spell: lv(s),
        spaces: lv(s),
        reform: lv(s),
        mix_delims: s.chance(1, 2),
        empty_cells: s.chance(1, 2),
        bare_hyphen: s.chance(1, 3),
        nested_tables: s.chance(1, 2),
        quote_dotted: true,
        tagged: false,
    }
}

pub struct B<'s, 'a> {
    s: &'s mut Src<'a>,
    st: Style,
    d: Delimiter,
    lines: Vec<Line>,
    inside: Vec<usize>,
}

fn pct(s: &mut Src, p: u64) -> bool {
    p > 0 && s.chance(p, 100)
}

pub fn delims() -> [Delimiter; 3] {
    [Delimiter::Comma, Delimiter::Pipe, Delimiter::Tab]
}

/// A quoted spelling of a string.
pub fn quoted_random(s: &mut Src, st: &Style, x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        let cp = c as u32;
        let short = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            _ => None,
        };
        let must = c == '"' || c == '\\' || cp < 0x20 || cp == 0x7f;
        let uni = |s: &mut Src| -> String {
            let h = format!("{cp:04x}");
            h.chars().map(|c| if s.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect()
        };
        if must {
            match short {
                Some(e) if !pct(s, st.escapes) => {
                    o.push('\\');
                    o.push(e);
                }
                _ => {
                    o.push_str("\\u");
                    o.push_str(&uni(s));
                }
            }
        } else if c == '/' && pct(s, st.escapes) {
            o.push_str("\\/");
        } else if cp < 0x10000 && st.escapes > 0 && s.chance(1, 12) {
            o.push_str("\\u");
            o.push_str(&uni(s));
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

/// A spelling of a number that denotes it exactly.
pub fn number_random(s: &mut Src, st: &Style, n: &Number) -> String {
    let canon = num_text(n);
    if !pct(s, st.spell) {
        return canon;
    }
    let exact_int = n.is_i64() || n.is_u64();
    if exact_int && n.as_i64().is_none_or(|i| i.unsigned_abs() > 1 << 52) {
        return canon;
    }
    let neg0 = canon == "0" && s.chance(1, 4);
    let base = if neg0 { "-0".to_string() } else { canon.clone() };
    let (mant, exp) = match s.below(4) {
        0 => {
            // trailing zeros
            let mut t = base.clone();
            if !t.contains('.') {
                t.push('.');
                t.push('0');
            }
            for _ in 0..s.below(3) {
                t.push('0');
            }
            return t;
        }
        1 => (base.clone(), 0i64),
        2 if exact_int => (format!("{base}0"), -1),
        2 => {
            let e = format!("{:e}", n.as_f64().unwrap());
            let (m, e) = e.split_once('e').unwrap();
            (m.to_string(), e.parse().unwrap())
        }
        _ => {
            let i: i64 = n.as_i64().unwrap_or(0);
            if exact_int && i != 0 && i % 10 == 0 { ((i / 10).to_string(), 1) } else { (base.clone(), 0) }
        }
    };
    // "00" as a mantissa would have a leading zero
    if mant.trim_start_matches('-').len() > 1 && mant.trim_start_matches('-').starts_with('0') && !mant.trim_start_matches('-').starts_with("0.") {
        return canon;
    }
    let e = if s.chance(1, 2) { 'e' } else { 'E' };
    let sign = if exp < 0 { "-" } else if s.chance(1, 2) { "+" } else { "" };
    let pad = if s.chance(1, 4) { "0" } else { "" };
    format!("{mant}{e}{sign}{pad}{}", exp.abs())
}

/// Strings a reader takes as text although they consist of digits: leading zeros.
pub fn leading_zero_text(x: &str) -> bool {
    let t = x.strip_prefix('-').unwrap_or(x);
    t.len() > 1 && t.starts_with('0') && t.bytes().all(|b| b.is_ascii_digit())
}

impl B<'_, '_> {
    /// Token of a primitive; `cell` gives the active delimiter inside arrays.
    fn token(&mut self, v: &Value, cell: Option<Delimiter>) -> String {
        match v {
            Value::Null => "null".into(),
            Value::Bool(b) => b.to_string(),
            Value::Number(n) => number_random(self.s, &self.st, n),
            Value::String(x) => {
                let plain = match cell {
                    Some(d) => refmodel::quote_rule(x, d) == Quote::MustNot,
                    None => refmodel::quote_rule(x, Delimiter::Comma) == Quote::MustNot || refmodel::quote_rule(x, Delimiter::Pipe) == Quote::MustNot,
                };
                if (plain || leading_zero_text(x)) && !pct(self.s, self.st.quote) {
                    x.clone()
                } else {
                    quoted_random(self.s, &self.st, x)
                }
            }
            _ => unreachable!(),
        }
    }
    fn key(&mut self, k: &str) -> String {
        if self.st.tagged {
            return if k.starts_with('q') { quoted_random(self.s, &self.st, &k[2..]) } else { k[2..].to_string() };
        }
        if key_plain(k) && !((self.st.quote_dotted || !k.contains('.')) && pct(self.s, self.st.quote)) { k.to_string() } else { quoted_random(self.s, &self.st, k) }
    }
    fn gap(&mut self) -> &'static str {
        if !pct(self.s, self.st.spaces) {
            return "";
        }
        let n = if self.s.chance(1, 250) { self.s.many(4, 40, 300) } else { self.s.below(4) };
        &BLANKS[..n]
    }
    fn push(&mut self, level: usize, kind: Kind, hyphen: bool, text: String) -> usize {
        let inside = self.inside.clone();
        let text = if hyphen && kind != Kind::BareItem { format!("- {text}") } else { text };
        self.lines.push(Line { level, text, kind, hyphen, header: None, inside, quoted: vec![], cells: vec![], key: None, colon: None });
        self.lines.len() - 1
    }
    fn scalar_field(&mut self, level: usize, hyphen: bool, k: &str, v: &Value) {
        let key = self.key(k);
        let tok = self.token(v, None);
        let gap = self.gap();
        let sh = if hyphen { 2 } else { 0 };
        let text = format!("{key}: {gap}{tok}");
        let at = key.len() + 2 + gap.len() + sh;
        let i = self.push(level, Kind::ScalarField, hyphen, text);
        let l = &mut self.lines[i];
        l.key = Some((sh, sh + key.len()));
        l.colon = Some(sh + key.len());
        if key.starts_with('"') {
            l.quoted.push((sh, sh + key.len(), true));
        }
        if tok.starts_with('"') {
            l.quoted.push((at, at + tok.len(), false));
        }
    }
    /// Joins tokens with the delimiter and optional blanks; gives text and byte ranges.
    fn row(&mut self, toks: &[String], d: Delimiter) -> (String, Vec<(usize, usize)>) {
        let dc = refmodel::delim_char(d);
        let mut t = String::new();
        let mut at = Vec::new();
        for (i, k) in toks.iter().enumerate() {
            if i > 0 {
                if !toks[i - 1].is_empty() {
                    let g = self.gap();
                    t.push_str(g);
                }
                t.push(dc);
                if !k.is_empty() {
                    let g = self.gap();
                    t.push_str(g);
                }
            }
            at.push((t.len(), t.len() + k.len()));
            t.push_str(k);
        }
        (t, at)
    }
    /// Some cells that hold "" are left empty.
    fn empties(&mut self, toks: &mut [String], d: Delimiter) {
        if !self.st.empty_cells || toks.len() < 2 {
            return;
        }
        let n = toks.len();
        for (i, t) in toks.iter_mut().enumerate() {
            if t == "\"\"" && ((i > 0 && i + 1 < n) || (d != Delimiter::Tab && i + 1 < n)) && self.s.chance(1, 2) {
                t.clear();
            }
        }
    }
    /// `key` is None for keyless arrays. Body lines go to `body`.
    fn array(&mut self, level: usize, body: usize, hyphen: bool, key: Option<&str>, a: &[Value]) -> Value {
        let d = if self.st.mix_delims { *self.s.pick(&delims()) } else { self.d };
        let dc = refmodel::delim_char(d);
        let kt = key.map(|k| self.key(k)).unwrap_or_default();
        let cols = table_columns(a).map(|c| c.into_iter().cloned().collect::<Vec<String>>());
        let keyless_nested = key.is_none() && hyphen;
        let prims = a.iter().all(is_prim);
        let form = if a.is_empty() {
            Form::Inline
        } else if prims {
            if pct(self.s, self.st.reform) { Form::List } else { Form::Inline }
        } else if cols.is_some() && (!keyless_nested || (self.st.nested_tables && self.s.chance(1, 2))) && !pct(self.s, self.st.reform) {
            Form::Table
        } else {
            Form::List
        };
        let sh = if hyphen { 2 } else { 0 };
        let mut text = kt.clone();
        text.push('[');
        let c0 = text.len() + sh;
        text.push_str(&a.len().to_string());
        let c1 = text.len() + sh;
        if dc != ',' {
            text.push(dc);
        }
        text.push(']');
        let mut braces = (0, 0);
        let mut quoted = Vec::new();
        if kt.starts_with('"') {
            quoted.push((sh, sh + kt.len(), true));
        }
        let mut order = cols.clone().unwrap_or_default();
        if form == Form::Table && order.len() > 1 && pct(self.s, self.st.reform) {
            // any column order is valid; the rows then have that order
            let i = self.s.below(order.len());
            let k = order.remove(i);
            order.push(k);
        }
        if form == Form::Table {
            let names: Vec<String> = order.iter().map(|k| self.key(k)).collect();
            text.push('{');
            let b0 = text.len() + sh;
            let (t, at) = self.row(&names, d);
            for (x, y) in &at {
                if names.iter().any(|n| n.starts_with('"')) && t[*x..*y].starts_with('"') {
                    quoted.push((b0 + x, b0 + y, true));
                }
            }
            text.push_str(&t);
            braces = (b0, text.len() + sh);
            text.push('}');
        }
        let colon = text.len() + sh;
        text.push(':');
        let mut cells = Vec::new();
        if form == Form::Inline && !a.is_empty() {
            let mut toks: Vec<String> = a.iter().map(|v| self.token(v, Some(d))).collect();
            self.empties(&mut toks, d);
            text.push(' ');
            let g = self.gap();
            text.push_str(g);
            let v0 = text.len() + sh;
            let (t, at) = self.row(&toks, d);
            for (x, y) in at {
                cells.push((v0 + x, v0 + y));
                if t[x..y].starts_with('"') {
                    quoted.push((v0 + x, v0 + y, false));
                }
            }
            text.push_str(&t);
        }
        let i = self.push(level, Kind::ArrayHeader, hyphen, text);
        {
            let l = &mut self.lines[i];
            l.header = Some(Header { count: (c0, c1), len: a.len(), form, delim: dc, cols: order.len(), braces, last_line: i });
            l.quoted = quoted;
            l.cells = cells;
            l.colon = Some(colon);
            if key.is_some() {
                l.key = Some((sh, sh + kt.len()));
            }
        }
        self.inside.push(i);
        let mut out = Vec::new();
        match form {
            Form::Inline => out = a.to_vec(),
            Form::Table => {
                for r in a {
                    out.push(Value::Object(order.iter().map(|k| (k.clone(), r[k.as_str()].clone())).collect()));
                    let mut toks: Vec<String> = order.iter().map(|k| self.token(&r[k.as_str()], Some(d))).collect();
                    self.empties(&mut toks, d);
                    let (t, at) = self.row(&toks, d);
                    let mut q = Vec::new();
                    for (x, y) in &at {
                        if t[*x..*y].starts_with('"') {
                            q.push((*x, *y, false));
                        }
                    }
                    let j = self.push(body, Kind::Row, false, t);
                    self.lines[j].quoted = q;
                    self.lines[j].cells = at;
                }
            }
            Form::List => {
                for x in a {
                    let x = self.item(body, x);
                    out.push(x);
                }
            }
        }
        self.inside.pop();
        let last = self.lines.len() - 1;
        self.lines[i].header.as_mut().unwrap().last_line = last;
        Value::Array(out)
    }
    fn item(&mut self, level: usize, v: &Value) -> Value {
        match v {
            Value::Array(a) => self.array(level, level + 1, true, None, a),
            Value::Object(m) if m.is_empty() => {
                self.push(level, Kind::BareItem, true, "-".into());
                v.clone()
            }
            Value::Object(m) => {
                if self.st.bare_hyphen && self.s.chance(1, 3) {
                    self.push(level, Kind::BareItem, true, "-".into());
                    return self.fields(level + 1, m);
                }
                let mut o = Map::new();
                for (i, (k, v)) in m.iter().enumerate() {
                    let x = if i == 0 { self.field(level, level + 2, true, k, v) } else { self.field(level + 1, level + 2, false, k, v) };
                    o.insert(k.clone(), x);
                }
                Value::Object(o)
            }
            p => {
                let t = self.token(p, None);
                let q = t.starts_with('"');
                let n = t.len();
                let i = self.push(level, Kind::ScalarItem, true, t);
                if q {
                    self.lines[i].quoted.push((2, 2 + n, false));
                }
                p.clone()
            }
        }
    }
    fn field(&mut self, level: usize, body: usize, hyphen: bool, k: &str, v: &Value) -> Value {
        match v {
            Value::Array(a) => self.array(level, body, hyphen, Some(k), a),
            Value::Object(m) => {
                let key = self.key(k);
                let sh = if hyphen { 2 } else { 0 };
                let i = self.push(level, Kind::ObjectField, hyphen, format!("{key}:"));
                self.lines[i].key = Some((sh, sh + key.len()));
                self.lines[i].colon = Some(sh + key.len());
                if key.starts_with('"') {
                    self.lines[i].quoted.push((sh, sh + key.len(), true));
                }
                self.fields(body, m)
            }
            p => {
                self.scalar_field(level, hyphen, k, p);
                p.clone()
            }
        }
    }
    fn fields(&mut self, level: usize, m: &Map<String, Value>) -> Value {
        let mut o = Map::new();
        for (k, v) in m {
            let x = self.field(level, level + 1, false, k, v);
            o.insert(k.clone(), x);
        }
        Value::Object(o)
    }
}

/// Lays a value out. `want` is the value the document denotes (rows take the column order).
pub fn layout(s: &mut Src, v: &Value, st: Style, d: Delimiter, indent: usize) -> Doc {
    let mut b = B { s, st, d, lines: vec![], inside: vec![] };
    let want = match v {
        Value::Object(m) => b.fields(0, m),
        Value::Array(a) => b.array(0, 1, false, None, a),
        p => {
            let t = b.token(p, None);
            let q = t.starts_with('"');
            let n = t.len();
            let i = b.push(0, Kind::Root, false, t);
            if q {
                b.lines[i].quoted.push((0, n, false));
            }
            p.clone()
        }
    };
    Doc { lines: b.lines, indent, want }
}

impl Doc {
    /// The text without blank lines.
    pub fn text(&self) -> String {
        let mut o = String::new();
        for (i, l) in self.lines.iter().enumerate() {
            if i > 0 {
                o.push('\n');
            }
            o.push_str(&" ".repeat(l.level * self.indent));
            o.push_str(&l.text);
        }
        o
    }
    /// Rendered lines with blank lines inserted where they are allowed, and where each line of the
    /// document went.
    pub fn spaced_lines(&self, s: &mut Src, p: u64) -> (Vec<String>, Vec<usize>) {
        let mut o = Vec::new();
        let mut at = Vec::new();
        for l in &self.lines {
            if l.inside.is_empty() {
                blanks(s, p, &mut o);
            }
            at.push(o.len());
            o.push(format!("{}{}", " ".repeat(l.level * self.indent), l.text));
        }
        (o, at)
    }
    /// The document as only lenient decoding takes it: blank lines anywhere, and each block below
    /// a key, header or bare hyphen as deep as it likes. (The fields of an object on a hyphen line
    /// belong together by their column, which is one indent width further than the hyphen.)
    pub fn loose(&self, s: &mut Src, p: u64) -> String {
        let mut cols: Vec<usize> = Vec::new();
        let mut blocks = std::collections::BTreeMap::new();
        let mut o = Vec::new();
        let wild = s.chance(2, 3);
        for (i, l) in self.lines.iter().enumerate() {
            let parent = (0..i).rev().find(|j| self.lines[*j].level < l.level);
            let col = match parent {
                None => 0,
                Some(j) => *blocks.entry((j, l.level)).or_insert_with(|| {
                    let up = &self.lines[j];
                    let deeper = if wild && s.chance(1, 2) { 1 + s.below(9) } else { self.indent };
                    let object_on_hyphen = up.hyphen && (up.key.is_some() || up.kind == Kind::ScalarField);
                    match l.level - up.level {
                        _ if up.kind == Kind::BareItem => cols[j] + self.indent.max(deeper),
                        1 if object_on_hyphen => cols[j] + self.indent,
                        2 => cols[j] + self.indent + deeper,
                        _ => cols[j] + deeper,
                    }
                }),
            };
            cols.push(col);
            blanks(s, p, &mut o);
            o.push(format!("{}{}", " ".repeat(col), l.text));
        }
        o.join("\n")
    }
    pub fn spaced(&self, s: &mut Src, p: u64) -> String {
        let (mut o, _) = self.spaced_lines(s, p);
        match if p > 0 { s.below(4) } else { 0 } {
            1 => o.push(String::new()),
            2 => {
                blanks(s, p, &mut o);
                o.push(String::new());
            }
            _ => {}
        }
        o.join("\n")
    }
}

/// As many spaces as a gap may have.
static BLANKS: &str = match std::str::from_utf8(&[b' '; 300]) {
    Ok(t) => t,
    Err(_) => unreachable!(),
};

pub fn blanks(s: &mut Src, p: u64, o: &mut Vec<String>) {
    if pct(s, p) {
        let run = if s.chance(1, 120) { s.many(3, 40, 300) } else { 1 + s.below(2) };
        for _ in 0..run {
            let n = if s.chance(1, 150) { s.many(3, 40, 300) } else { *s.pick(&[0usize, 0, 0, 1, 2, 4]) };
            o.push(" ".repeat(n));
        }
    }
}

/// A document with exactly one thing wrong.
pub struct Broken {
    pub lines: Vec<String>,
    pub what: &'static str,
    /// Lines (1-based) that a syntax error may name.
    pub allowed: Vec<usize>,
    /// Only strict decoding has to reject it.
    pub strict_only: bool,
}

impl Doc {
    fn headers(&self, i: usize, at: &[usize]) -> Vec<usize> {
        self.lines[i].inside.iter().map(|h| at[*h] + 1).collect()
    }
    /// Level at which fields following this line in the same block stand.
    fn sibling_level(&self, i: usize) -> usize {
        let l = &self.lines[i];
        if l.hyphen && matches!(l.kind, Kind::ScalarField | Kind::ObjectField) || (l.hyphen && l.kind == Kind::ArrayHeader && l.key.is_some()) { l.level + 1 } else { l.level }
    }

    /// Break the document in one defined way; None when the drawn way does not apply to it.
    pub fn break_one(&self, s: &mut Src) -> Option<Broken> {
        let p = *s.pick(&[0, 0, 25]);
        let (mut ls, at) = self.spaced_lines(s, p);
        let n = self.lines.len();
        let way = s.below(14);
        // a random line among those that qualify
        let choose = |s: &mut Src, f: &dyn Fn(usize) -> bool| -> Option<usize> {
            let c: Vec<usize> = (0..n).filter(|i| f(*i)).collect();
            if c.is_empty() { None } else { Some(*s.pick(&c)) }
        };
        let hdr = |i: usize| self.lines[i].header.as_ref();
        let pre = |i: usize| " ".repeat(self.lines[i].level * self.indent);
        let dstr = |d: char| d.to_string();
        let done = |ls: Vec<String>, what: &'static str, allowed: Vec<usize>, strict_only: bool| Some(Broken { lines: ls, what, allowed, strict_only });
        match way {
            0 => {
                let i = choose(s, &|i| hdr(i).is_some())?;
                let l = &self.lines[i];
                let h = hdr(i)?;
                let k = 1 + s.below(2);
                let m = if h.len >= k && s.chance(1, 2) { h.len - k } else { h.len + k };
                ls[at[i]] = format!("{}{}{}{}", pre(i), &l.text[..h.count.0], m, &l.text[h.count.1..]);
                done(ls, "declared-count", vec![at[i] + 1], false)
            }
            1 => {
                let i = choose(s, &|i| self.lines[i].kind == Kind::Row)?;
                let l = &self.lines[i];
                let h = hdr(*l.inside.last()?)?;
                let mut cells: Vec<&str> = l.cells.iter().map(|(a, b)| &l.text[*a..*b]).collect();
                if cells.len() > 1 && s.chance(1, 2) {
                    let k = s.below(cells.len());
                    cells.remove(k);
                    if cells[0].is_empty() || cells.iter().all(|c| c.is_empty()) {
                        return None;
                    }
                } else {
                    let k = 1 + s.below(cells.len());
                    cells.insert(k, "1");
                }
                ls[at[i]] = format!("{}{}", pre(i), cells.join(&dstr(h.delim)));
                done(ls, "row-width", vec![at[i] + 1], false)
            }
            2 => {
                let i = choose(s, &|i| hdr(i).is_some_and(|h| h.form == Form::Inline && h.len > 0))?;
                let l = &self.lines[i];
                let h = hdr(i)?;
                let mut cells: Vec<&str> = l.cells.iter().map(|(a, b)| &l.text[*a..*b]).collect();
                if cells.len() > 1 && s.chance(1, 2) {
                    let k = s.below(cells.len());
                    cells.remove(k);
                    if cells.iter().all(|c| c.is_empty()) {
                        return None;
                    }
                } else {
                    let k = s.below(cells.len() + 1);
                    cells.insert(k, "1");
                }
                ls[at[i]] = format!("{}{} {}", pre(i), &l.text[..l.colon? + 1], cells.join(&dstr(h.delim)));
                done(ls, "inline-width", vec![at[i] + 1], false)
            }
            3 => {
                // one row or scalar item too few or too many
                let i = choose(s, &|i| matches!(self.lines[i].kind, Kind::Row | Kind::ScalarItem))?;
                let h = *self.lines[i].inside.last()?;
                if s.chance(1, 2) {
                    ls.remove(at[i]);
                } else {
                    let t = ls[at[i]].clone();
                    ls.insert(at[i], t);
                }
                done(ls, "item-count", vec![at[h] + 1], false)
            }
            4 => {
                if self.indent < 2 {
                    return None;
                }
                let i = choose(s, &|_| true)?;
                let k = 1 + s.below(self.indent - 1);
                ls[at[i]] = format!("{}{}", " ".repeat(k), ls[at[i]]);
                done(ls, "indent-multiple", vec![at[i] + 1], true)
            }
            5 => {
                let i = choose(s, &|_| true)?;
                let l = &self.lines[i];
                let sp = l.level * self.indent;
                let k = s.below(sp + 1);
                let rest = if s.chance(1, 2) { sp - k } else { 0 };
                ls[at[i]] = format!("{}\t{}{}", " ".repeat(k), " ".repeat(rest), l.text);
                done(ls, "tab-indent", vec![at[i] + 1], true)
            }
            6 => {
                let i = choose(s, &|i| self.lines[i].inside.iter().any(|h| h + 1 < i))?;
                let k = 1 + s.below(2);
                for _ in 0..k {
                    let sp = *s.pick(&[0usize, 0, 1, 2, 4]);
                    ls.insert(at[i], " ".repeat(sp));
                }
                done(ls, "blank-inside", (0..k).map(|j| at[i] + 1 + j).collect(), true)
            }
            7..=9 => {
                let i = choose(s, &|i| !self.lines[i].quoted.is_empty())?;
                let l = &self.lines[i];
                // an opened string swallows what follows up to the next quote, so only the last one on a line is unterminated for sure
                let (a, b, key) = if way == 7 { *l.quoted.last()? } else { *s.pick(&l.quoted) };
                let t = &l.text;
                if way == 7 && t[a + 1..b - 1].contains('"') {
                    return None;
                }
                let (new, what) = match way {
                    7 => (format!("{}{}", &t[..b - 1], &t[b..]), if key { "unterminated-key" } else { "unterminated-string" }),
                    8 => {
                        let e = *s.pick(&["\\q", "\\x41", "\\u12g4", "\\ud800", "\\0", "\\uDFFF", "\\'", "\\ ", "\\U0041"]);
                        let ins = if s.chance(1, 2) { b - 1 } else { a + 1 };
                        (format!("{}{}{}", &t[..ins], e, &t[ins..]), if key { "bad-escape-key" } else { "bad-escape" })
                    }
                    _ => {
                        let g = *s.pick(&["x", "1", " y", "\"z\"", "é"]);
                        (format!("{}{}{}", &t[..b], g, &t[b..]), if key { "after-quote-key" } else { "after-quote" })
                    }
                };
                ls[at[i]] = format!("{}{}", pre(i), new);
                let mut ok = vec![at[i] + 1];
                // a header that is none any more leaves its rows or items without owner
                if key && way == 7 {
                    ok.extend(self.headers(i, &at));
                }
                if key && way == 7 && l.header.is_some() {
                    ok.extend(at.get(i + 1).map(|a| a + 1));
                }
                done(ls, what, ok, false)
            }
            10 => {
                // a row, a header or inline values written with another delimiter
                let i = choose(s, &|i| {
                    let l = &self.lines[i];
                    l.cells.len() > 1 || hdr(i).is_some_and(|h| h.form == Form::Table && h.cols > 1)
                })?;
                let l = &self.lines[i];
                let d = match hdr(i) {
                    Some(h) => h.delim,
                    None => hdr(*l.inside.last()?)?.delim,
                };
                let other: Vec<char> = [',', '|', '\t'].into_iter().filter(|c| *c != d).collect();
                let e = *s.pick(&other);
                let new = match hdr(i) {
                    Some(h) if h.form == Form::Table => {
                        // the names in braces use another delimiter
                        let inner = &l.text[h.braces.0..h.braces.1];
                        if inner.contains('"') {
                            return None;
                        }
                        // the rows are right, or as wide as these names read with the declared delimiter
                        if s.chance(1, 2) {
                            for j in (0..n).filter(|j| self.lines[*j].kind == Kind::Row && self.lines[*j].inside.last() == Some(&i)) {
                                let first = self.lines[j].cells.first().map(|(a, b)| &self.lines[j].text[*a..*b]).filter(|c| !c.is_empty())?;
                                ls[at[j]] = format!("{}{first}", pre(j));
                            }
                        }
                        format!("{}{}{}", &l.text[..h.braces.0], inner.replace(d, &dstr(e)), &l.text[h.braces.1..])
                    }
                    _ => {
                        let cells: Vec<&str> = l.cells.iter().map(|(a, b)| &l.text[*a..*b]).collect();
                        if cells.iter().any(|c| c.is_empty() || c.contains(d)) {
                            return None;
                        }
                        let head = if l.kind == Kind::Row { String::new() } else { format!("{} ", &l.text[..l.colon? + 1]) };
                        format!("{head}{}", cells.join(&dstr(e)))
                    }
                };
                ls[at[i]] = format!("{}{}", pre(i), new);
                done(ls, "wrong-delimiter", vec![at[i] + 1], true)
            }
            11 | 12 => {
                // a line without children, one level deeper than its sibling before it
                let leaf = |i: usize| matches!(self.lines[i].kind, Kind::ScalarField | Kind::ScalarItem | Kind::Row) || hdr(i).is_some_and(|h| h.form == Form::Inline && h.len > 0);
                let i = choose(s, &|i| i > 0 && leaf(i) && leaf(i - 1) && self.lines[i].level == self.sibling_level(i - 1))?;
                let k = 1 + s.below(2);
                ls[at[i]] = format!("{}{}", " ".repeat(k * self.indent), ls[at[i]]);
                let mut ok = vec![at[i] + 1];
                ok.extend(self.headers(i, &at));
                done(ls, "too-deep", ok, true)
            }
            _ => {
                // a field without its colon
                let i = choose(s, &|i| {
                    let l = &self.lines[i];
                    matches!(l.kind, Kind::ScalarField | Kind::ObjectField) && !l.hyphen && i > 0 && self.lines[i - 1].kind != Kind::BareItem
                })?;
                let l = &self.lines[i];
                let c = l.colon?;
                ls[at[i]] = format!("{}{}{}", pre(i), &l.text[..c], &l.text[c + 1..]);
                let mut ok = vec![at[i] + 1];
                ok.extend(self.headers(i, &at));
                done(ls, "missing-colon", ok, true)
            }
        }
    }
}
