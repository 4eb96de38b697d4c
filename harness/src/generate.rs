//! Generators of JSON values, strings, keys and numbers.

use crate::engine::Src;
use serde_json::{Map, Number, Value};

/// Fragments that matter to the format: delimiters, structure characters, literals, number
/// look-alikes, escapes, controls, multi-byte characters.
pub const FRAGS: &[&str] = &[
    "a", "b", "x1", "foo", "Bar", "_", "z", "true", "false", "null", "0", "1", "42", "-1", "05", "-05", "1.5", "1e5", "-0", "1E-3", ".5", "5.", "1e",
    "0x10", "00", "-", "--", "- ", " ", "  ", ",", "|", "\t", ":", ": ", "[", "]", "{", "}", "[2]", "[2]:", "{a,b}", "[0]:", "[1|]", "\"", "\\", "\\n",
    "\n", "\r", "\r\n", "\u{0}", "\u{1}", "\u{8}", "\u{c}", "\u{b}", "\u{1b}", "\u{1f}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{ad}", "é", "ß", "日本", "語", "😀", "\u{200b}", "\u{2028}",
    "\u{feff}", "\u{fffd}", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "@", "@,", "@|", "#", "//", "/", "'", "`", "!", "&", "*", "%", "?", "<", ">", "=", "~", "^", ";", "$", "(", ")", "+", "+5", ".", "..", "a.b", "key: v",
    "- x", "\\u0041", "inf", "nan", "NaN", "Infinity", "e", "E5", "1_000", "1,2", "TRUE", "True", "Null", "18446744073709551616", "9007199254740993",
];

pub fn any_char(s: &mut Src) -> char {
    match s.weighted(&[6, 4, 3, 2, 2, 1]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => (0x20 + s.below(0x5f) as u8) as char,
        2 => s.below(0x80) as u8 as char,
        3 => char::from_u32(0x80 + s.below(0x780) as u32).unwrap_or('é'),
        4 => char::from_u32(s.below(0x10000) as u32).unwrap_or('\u{fffd}'),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{10000}'),
    }
}

/// Any Unicode string, biased to the troublesome ones.
/// A long text, plain but for one place.
pub fn long_string(s: &mut Src) -> String {
    let mut n = extent(s, 60, 1500);
    let f = if s.chance(1, 2) { s.pick(FRAGS).to_string() } else { any_char(s).to_string() };
    let unit = *s.pick(&["x", "ab ", "é", "語x", "1", "ab.c_"]);
    if unit.contains('.') {
        // a key of thousands of segments is nesting thousands of levels deep once it is expanded
        n = n.min(400);
    }
    let at = *s.pick(&[0, 1, n / 2, n - n / 5, n - 1, n]);
    let mut t: String = unit.chars().cycle().take(n).collect();
    let cut = t.char_indices().nth(at).map_or(t.len(), |(i, _)| i);
    t.insert_str(cut, &f);
    t
}

pub fn any_string(s: &mut Src) -> String {
    if let Some(t) = crate::words::text(s) {
        return t;
    }
    if s.size > 20 && s.chance(1, 150) {
        return long_string(s);
    }
    match s.weighted(&[4, 5, 4, 2, 1, 1]) {
        0 => ident(s),
        1 => {
            let n = 1 + s.below(3);
            (0..n).map(|_| *s.pick(FRAGS)).collect()
        }
        2 => {
            let n = s.count(8);
            (0..n).map(|_| any_char(s)).collect()
        }
        3 => {
            // a plain word with one troublesome fragment at a chosen place
            let w = words(s);
            let f = *s.pick(FRAGS);
            let cuts: Vec<usize> = w.char_indices().map(|(i, _)| i).chain([w.len()]).collect();
            let at = *s.pick(&cuts);
            format!("{}{}{}", &w[..at], f, &w[at..])
        }
        4 => {
            let n = s.range(20, 20 + 4 * s.size as usize);
            let c = any_char(s);
            let d = any_char(s);
            let p = s.below(n);
            (0..n).map(|i| if i == p { d } else { c }).collect()
        }
        _ => number_like(s),
    }
}

pub fn number_like(s: &mut Src) -> String {
    let mut out = String::new();
    out.push_str(s.pick::<&str>(&["", "-", "+", "--"]));
    let n = s.below(4);
    for _ in 0..n {
        out.push((b'0' + s.below(10) as u8) as char);
    }
    if s.chance(1, 2) {
        out.push('.');
        for _ in 0..s.below(3) {
            out.push((b'0' + s.below(10) as u8) as char);
        }
    }
    if s.chance(1, 3) {
        out.push_str(s.pick::<&str>(&["e", "E", "e+", "e-", "E-"]));
        for _ in 0..s.below(3) {
            out.push((b'0' + s.below(10) as u8) as char);
        }
    }
    out.push_str(s.pick::<&str>(&["", "", "", " ", "x", "%"]));
    out
}

pub fn words(s: &mut Src) -> String {
    let n = 1 + s.below(3);
    (0..n).map(|_| *s.pick(&["alpha", "b", "Hello", "world", "é", "x9", "日本"])).collect::<Vec<_>>().join(" ")
}

pub const IDENTS: &[&str] = &["a", "b", "c", "d", "id", "name", "x", "y", "k1", "_p", "items", "Zed", "value", "a1", "true", "null", "ab", "abc"];

pub fn ident(s: &mut Src) -> String {
    if let Some(t) = crate::words::ident(s) {
        return t;
    }
    if s.chance(1, 5) {
        let mut o = String::new();
        let n = 1 + s.below(6);
        for i in 0..n {
            let cs: &[u8] = if i == 0 { b"abcXYZ_" } else { b"abcXYZ_0129" };
            o.push(*s.pick(cs) as char);
        }
        o
    } else {
        s.pick(IDENTS).to_string()
    }
}

/// Keys: mostly identifiers, some dotted, some arbitrary.
pub fn any_key(s: &mut Src) -> String {
    match s.weighted(&[10, 2, 4, 1]) {
        0 => ident(s),
        1 => {
            let n = 2 + s.below(2);
            (0..n).map(|_| ident(s)).collect::<Vec<_>>().join(".")
        }
        2 => any_string(s),
        _ => s.pick(&["", ".", "a.", ".a", "a..b", "1a", "0", "-", "my-key", "full name", "a:b", "a[1]", "k[2]{x}", "@", "- a", "\"q\"", "a,b", "a|b", "\u{200b}a.b", "é.b", "a-b.c", "\u{200b}x", "{0}", "[0]", "[2]"]).to_string(),
    }
}

pub fn ident_key(s: &mut Src) -> String {
    ident(s)
}

/// An f64 that is finite; integer-valued ones included.
pub fn any_f64(s: &mut Src) -> f64 {
    let x = match s.weighted(&[4, 3, 3, 2, 2, 2]) {
        0 => {
            let m = s.draw(2_000_000) as f64 - 1_000_000.0;
            let e = s.below(9) as i32;
            m / 10f64.powi(e)
        }
        1 => f64::from_bits(s.u64()),
        2 => *s.pick(&[
            0.0, -0.0, 0.5, -0.5, 1.0, 1.5, 0.1, 0.2, 0.3, 1e-7, 1e-6, 1e-5, 1.5e-7, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e23, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324,
            9007199254740992.0, 9007199254740994.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 18446744073709549568.0, 1.7976931348623155e308, 2.2250738585072011e-308, 123456789012345680.0, 0.1e1, 1e-10, 12345.678, 100.0, 1e2, 3.0e10,
            4294967296.0, -2147483649.0, 1e100, 1.0000000000000002, 0.30000000000000004, 99999999999999990000.0, -1.5, -0.1,
        ]),
        3 => (s.u64() as f64) * if s.chance(1, 2) { -1.0 } else { 1.0 },
        4 => {
            let d = 1 + s.draw(999_999_999_999_999);
            let e = s.below(640) as i32 - 330;
            format!("{d}e{e}").parse().unwrap_or(1.5)
        }
        _ => (f32::from_bits(s.draw(1 << 32) as u32)) as f64,
    };
    if x.is_finite() { x } else { 1.25 }
}

pub fn any_i64(s: &mut Src) -> i64 {
    match s.weighted(&[5, 2, 2]) {
        0 => s.draw(2001) as i64 - 1000,
        1 => s.u64() as i64,
        _ => {
            let p = s.below(64);
            let v = 1u64 << p;
            let d = s.below(3) as i64 - 1;
            let x = (v as i64).wrapping_add(d);
            if s.chance(1, 2) { x.wrapping_neg() } else { x }
        }
    }
}

pub fn any_number(s: &mut Src) -> Number {
    if let Some(n) = crate::words::number(s) {
        return match s.below(4) {
            0 => Number::from((n as i64).wrapping_neg()),
            1 => Number::from_f64(n as f64 + 0.5).filter(|n| !crate::refmodel::is_tie(n.as_f64().unwrap())).unwrap_or(n.into()),
            _ => n.into(),
        };
    }
    match s.weighted(&[5, 2, 3]) {
        0 => Number::from(any_i64(s)),
        1 => Number::from(match s.weighted(&[2, 2, 1]) {
            0 => s.u64(),
            1 => u64::MAX - s.draw(5),
            _ => (1u64 << 63).wrapping_add(s.draw(5)).wrapping_sub(2),
        }),
        _ => Number::from_f64(any_f64(s)).unwrap_or_else(|| Number::from(7)),
    }
}

pub fn primitive(s: &mut Src) -> Value {
    match s.weighted(&[5, 4, 2, 1]) {
        0 => Value::String(any_string(s)),
        1 => Value::Number(any_number(s)),
        2 => Value::Bool(s.chance(1, 2)),
        _ => Value::Null,
    }
}

pub fn simple_primitive(s: &mut Src) -> Value {
    match s.weighted(&[4, 4, 2, 1]) {
        0 => Value::Number(Number::from(s.draw(100))),
        1 => Value::String(ident(s)),
        2 => Value::Bool(s.chance(1, 2)),
        _ => Value::Null,
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub depth: usize,
    pub key: fn(&mut Src) -> String,
    pub prim: fn(&mut Src) -> Value,
    /// Maximum number of nodes.
    pub budget: usize,
    pub max_width: usize,
}

pub fn cfg(s: &Src) -> Cfg {
    Cfg { depth: 2 + (s.size as usize) / 18, key: any_key, prim: primitive, budget: 10 + s.size as usize * 2, max_width: 3 + s.size as usize / 12 }
}
pub fn plain_cfg(s: &Src) -> Cfg {
    Cfg { key: ident_key, ..cfg(s) }
}

pub fn value(s: &mut Src, c: Cfg) -> Value {
    let mut b = c.budget;
    if s.size > 20 && s.chance(1, 50) {
        return big(s, &c);
    }
    node(s, &c, c.depth, &mut b)
}

fn node(s: &mut Src, c: &Cfg, depth: usize, b: &mut usize) -> Value {
    *b = b.saturating_sub(1);
    if depth == 0 || *b == 0 {
        return match s.weighted(&[8, 1, 1]) {
            0 => (c.prim)(s),
            1 => Value::Object(Map::new()),
            _ => Value::Array(vec![]),
        };
    }
    match s.weighted(&[3, 6, 4, 3, 2, 2, 1, 1]) {
        0 => (c.prim)(s),
        1 => object(s, c, depth, b),
        2 => array(s, c, depth, b),
        3 => table(s, c, b),
        4 => chain(s, c, depth, b),
        5 => prim_array(s, c, b),
        6 => Value::Object(Map::new()),
        _ => Value::Array(vec![]),
    }
}

/// Mostly `lo` to `hi`; now and then several times as many, rarely many times as many.
fn extent(s: &mut Src, lo: usize, hi: usize) -> usize {
    if let Some(n) = crate::words::size(s, lo, hi * 40, 1, 2) {
        return n;
    }
    match s.weighted(&[270, 30, 1]) {
        0 => s.range(lo, hi),
        1 => s.range(hi, hi * 7),
        _ => s.range(hi * 7, hi * 40),
    }
}
/// As `extent`, and very rarely beyond what sixteen bits count.
fn far(s: &mut Src, lo: usize, hi: usize) -> usize {
    if s.chance(1, 800) { s.range(65_530, 66_500) } else { extent(s, lo, hi) }
}
/// One dimension far beyond the usual: many keys, columns, rows or items, deep nesting, long texts.
pub fn big(s: &mut Src, c: &Cfg) -> Value {
    let numbered = |s: &mut Src, n: usize| -> Vec<String> {
        let p = (c.key)(s);
        (0..n).map(|i| if i % 3 == 0 { format!("{p}{i}") } else { format!("k{i}") }).collect()
    };
    let v = match s.below(9) {
        7 => {
            // an object of many small members, all different
            let n = extent(s, 9, 80);
            let keys = numbered(s, n);
            let mut b = 4 * n;
            keys.into_iter().map(|k| (k, node(s, c, 2, &mut b))).collect::<Map<_, _>>().into()
        }
        8 => {
            // many items, all different, most of them of one shape
            let n = extent(s, 9, 80);
            let mut b = 4 * n;
            let key = (c.key)(s);
            let f = s.below(5);
            Value::Array(
                (0..n)
                    .map(|_| match if s.chance(1, 8) { 4 } else { f } {
                        0 => prim_array(s, c, &mut b),
                        1 => table(s, c, &mut b),
                        2 => Value::Object(Map::from_iter([(key.clone(), node(s, c, 1, &mut b)), ("z".to_string(), (c.prim)(s))])),
                        3 => chain(s, c, 2, &mut b),
                        _ => node(s, c, 2, &mut b),
                    })
                    .collect(),
            )
        }
        0 => {
            let n = extent(s, 8, 70);
            numbered(s, n).into_iter().map(|k| (k, (c.prim)(s))).collect::<Map<_, _>>().into()
        }
        1 => {
            let n = extent(s, 5, 40);
            let keys = numbered(s, n);
            let rows = 1 + s.below(4);
            let row = |s: &mut Src| Value::Object(keys.iter().map(|k| (k.clone(), (c.prim)(s))).collect());
            Value::Array((0..rows).map(|_| row(s)).collect())
        }
        2 => {
            let n = far(s, 17, 300);
            let xs: Vec<Value> = (0..3).map(|_| (c.prim)(s)).collect();
            Value::Array((0..n).map(|i| xs[i * i % 3].clone()).collect())
        }
        3 => {
            // a list of many small items
            let n = extent(s, 9, 80);
            let mut b = 6;
            let xs: Vec<Value> = (0..3).map(|_| node(s, c, 2, &mut b)).collect();
            Value::Array((0..n).map(|i| xs[i * i % 3].clone()).collect())
        }
        4 => {
            let n = far(s, 9, 130);
            let keys = [(c.key)(s), (c.key)(s)];
            let xs: Vec<Value> = (0..4).map(|_| (c.prim)(s)).collect();
            let row = |i: usize| Value::Object(keys.iter().enumerate().map(|(j, k)| (k.clone(), xs[(i * i + j) % 4].clone())).collect());
            let mut rows: Vec<Value> = (0..n).map(row).collect();
            if s.chance(1, 3) {
                // one row far in is no row
                let at = *s.pick(&[0, 1, n / 3, n / 2, n - 1 - n / 9, n - 2, n - 1]);
                let kind = s.below(4);
                rows[at] = match (&mut rows[at], kind) {
                    (Value::Object(m), 0) => {
                        m.insert(keys[1].clone(), Value::Array(vec![]));
                        std::mem::take(m).into()
                    }
                    (Value::Object(m), 1) => {
                        m.insert("extra".to_string(), Value::Null);
                        std::mem::take(m).into()
                    }
                    (Value::Object(m), 2) => m.iter().take(1).map(|(_, v)| ("other".to_string(), v.clone())).chain([(keys[1].clone(), Value::Null)]).collect::<Map<_, _>>().into(),
                    _ => Value::Null,
                };
            }
            Value::Array(rows)
        }
        5 => {
            let n = if s.chance(1, 6) { s.range(60, 110) } else { s.range(8, 60) };
            let mut b = 4;
            let mut v = node(s, c, 1, &mut b);
            for _ in 0..n {
                v = match s.below(5) {
                    0 => Value::Array(vec![v]),
                    1 => Value::Array(vec![Value::Null, v]),
                    2 => Value::Object(Map::from_iter([("a".to_string(), v), ("z".to_string(), Value::from(1))])),
                    3 => Value::Object(Map::from_iter([("f".to_string(), Value::from(1)), ("g".to_string(), v)])),
                    _ => Value::Object(Map::from_iter([("o".to_string(), v)])),
                };
            }
            v
        }
        _ => {
            let n = far(s, 64, 3000);
            let f = (c.prim)(s);
            let f = f.as_str().unwrap_or(",");
            let at = *s.pick(&[0, 1, n / 2, n - 1, n]);
            let ch = *s.pick(&['x', ' ', 'é', '語', '\\', '"']);
            let mut t: String = (0..n).map(|i| if i % 7 == 6 { 'y' } else { ch }).collect();
            let cut = t.char_indices().nth(at).map_or(t.len(), |(i, _)| i);
            t.insert_str(cut, f);
            // the ends stay plain for generators that avoid doubtful strings
            let t = format!("x{t}x").replace(|c: char| (0x80..0xa0).contains(&(c as u32)), "~");
            if s.chance(1, 3) { Value::Object(Map::from_iter([(t, (c.prim)(s))])) } else { Value::Array(vec![t.into(), (c.prim)(s)]) }
        }
    };
    match s.below(3) {
        0 => v,
        1 => Value::Object(Map::from_iter([((c.key)(s), v), ("after".to_string(), Value::Bool(true))])),
        _ => Value::Array(vec![v, Value::from("after")]),
    }
}

pub fn object(s: &mut Src, c: &Cfg, depth: usize, b: &mut usize) -> Value {
    let n = s.count(c.max_width);
    let mut m = Map::new();
    for _ in 0..n {
        let k = (c.key)(s);
        let v = node(s, c, depth - 1, b);
        m.insert(k, v);
    }
    Value::Object(m)
}

fn array(s: &mut Src, c: &Cfg, depth: usize, b: &mut usize) -> Value {
    let n = s.count(c.max_width);
    Value::Array((0..n).map(|_| node(s, c, depth - 1, b)).collect())
}

fn prim_array(s: &mut Src, c: &Cfg, b: &mut usize) -> Value {
    let n = if s.chance(1, 40) { s.range(9, 12 + 3 * s.size as usize) } else { s.count(c.max_width) };
    *b = b.saturating_sub(n.min(12) / 2);
    if n > 40 {
        // long arrays: few distinct elements
        let xs: Vec<Value> = (0..4).map(|_| (c.prim)(s)).collect();
        let st = 1 + s.below(3);
        return Value::Array((0..n).map(|i| xs[(i * st / 2) % 4].clone()).collect());
    }
    Value::Array((0..n).map(|_| (c.prim)(s)).collect())
}

/// Nested single-key objects.
fn chain(s: &mut Src, c: &Cfg, depth: usize, b: &mut usize) -> Value {
    let n = 1 + s.below(depth.min(5));
    let mut v = node(s, c, depth.saturating_sub(n), b);
    for _ in 0..n {
        let mut m = Map::new();
        m.insert((c.key)(s), v);
        v = Value::Object(m);
    }
    v
}

/// Arrays of objects: uniform ones, and ones that miss uniformity in one way.
pub fn near_table(s: &mut Src, c: Cfg) -> Value {
    let mut b = c.budget;
    table(s, &c, &mut b)
}

fn table(s: &mut Src, c: &Cfg, b: &mut usize) -> Value {
    let cols = s.count(4);
    let mut keys: Vec<String> = Vec::new();
    for _ in 0..cols {
        let k = (c.key)(s);
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    if s.chance(1, 15) {
        // names that are alike for long
        let stem = s.pick::<&str>(&["k", "aB", "x_1"]).repeat(1 + s.below(20));
        keys.iter_mut().for_each(|k| k.insert_str(0, &stem));
    }
    let long = s.chance(1, 40);
    let rows = if long { s.range(9, 11 + s.size as usize) } else { s.count(c.max_width.max(2)) };
    *b = b.saturating_sub((rows * keys.len()).min(16) / 2);
    let mut out = Vec::new();
    let proto: Vec<Vec<Value>> = if long { (0..3).map(|_| keys.iter().map(|_| (c.prim)(s)).collect()).collect() } else { vec![] };
    for r in 0..rows {
        let mut m = Map::new();
        let mut ks = keys.clone();
        if !long && s.chance(1, 4) && ks.len() > 1 {
            let i = s.below(ks.len());
            let k = ks.remove(i);
            ks.push(k);
        }
        for (i, k) in ks.iter().enumerate() {
            let v = if long { proto[r % 3][i].clone() } else { (c.prim)(s) };
            m.insert(k.clone(), v);
        }
        out.push(Value::Object(m));
    }
    // spoil it sometimes
    if !out.is_empty() && s.chance(1, 4) {
        let i = s.below(out.len());
        let kind = s.below(7);
        let extra = (c.key)(s);
        if let Value::Object(m) = &mut out[i] {
            let first = m.keys().next().cloned();
            match kind {
                5 | 6 => {
                    // another name, nearly the same
                    if let Some((k, v)) = {
                        let at = s.below(m.len().max(1));
                        m.keys().nth(at).cloned().and_then(|k| m.shift_remove(&k).map(|v| (k, v)))
                    } {
                        m.insert(alike(s, &k), v);
                    }
                }
                0 => {
                    m.insert(extra, Value::Null);
                }
                1 => {
                    if let Some(k) = first {
                        m.shift_remove(&k);
                    }
                }
                2 => {
                    if let Some(k) = m.keys().last().cloned() {
                        m.insert(k, Value::Array(vec![]));
                    }
                }
                3 => {
                    if let Some(k) = first {
                        m.insert(k, Value::Object(Map::new()));
                    }
                }
                _ => {
                    m.clear();
                }
            }
        }
        if kind == 4 && s.chance(1, 2) {
            out[i] = (c.prim)(s);
        }
    }
    Value::Array(out)
}

/// A name nearly the same as this one (an identifier remains one).
fn alike(s: &mut Src, k: &str) -> String {
    let body = match k.char_indices().last() {
        Some((i, l)) if l.is_ascii_alphanumeric() && i > 0 && s.chance(1, 2) => &k[..i],
        _ => k,
    };
    if s.chance(1, 4) && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && k.starts_with(|c: char| c.is_ascii_alphabetic()) {
        return k.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
    }
    format!("{body}{}", s.pick::<&str>(&["x", "1", "_", "xx"]))
}

/// Now and then, characters that programs treat specially put at the very ends of a text.
pub fn edges(s: &mut Src, t: String) -> String {
    if !s.chance(1, 12) {
        return t;
    }
    let e = match s.below(3) {
        0 => char::from_u32(s.below(0x20) as u32).unwrap().to_string(),
        1 => any_string(s),
        _ => s.pick::<&str>(&["\u{feff}", "\u{fffe}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{200b}", "\u{1a}", "\0", "\r", "\n", "\r\n", "\u{c}", "\n\n", " ", "\t", "#!", "//", "---\n", "```\n", "\n```", "\u{4}", "\u{1b}[0m"]).to_string(),
    };
    let n = 1 + s.below(2);
    match s.below(3) {
        0 => e.repeat(n) + &t,
        1 => t + &e.repeat(n),
        _ => format!("{e}{t}{e}"),
    }
}

pub fn depth_of(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(depth_of).max().unwrap_or(0),
        Value::Object(m) => 1 + m.values().map(depth_of).max().unwrap_or(0),
        _ => 0,
    }
}

pub fn count_nodes(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(count_nodes).sum::<usize>(),
        Value::Object(m) => 1 + m.values().map(count_nodes).sum::<usize>(),
        _ => 1,
    }
}

pub fn options(s: &mut Src) -> toon::Options {
    let delimiter = *s.pick(&[toon::Delimiter::Comma, toon::Delimiter::Pipe, toon::Delimiter::Tab]);
    let word = crate::words::size(s, 2, 100, 1, 20);
    let indent = match s.weighted(&[24, 8, 8, 8, 1]) {
        _ if word.is_some() => word.unwrap(),
        0 => 2,
        1 => 4,
        2 => 1,
        3 => 3 + s.below(6),
        _ => 9 + s.below(70),
    };
    toon::Options { delimiter, indent, ..Default::default() }
}

/// Encode-only knobs at random.
pub fn fold_options(s: &mut Src) -> toon::Options {
    let mut o = options(s);
    if s.chance(2, 3) {
        o.key_folding = toon::KeyFolding::Safe;
        o.flatten_depth = any_depth(s);
    }
    o
}
pub fn any_depth(s: &mut Src) -> Option<usize> {
    if let Some(n) = crate::words::size(s, 2, 70_000, 1, 5) {
        return Some(n);
    }
    match s.weighted(&[20, 40, 4, 1]) {
        0 => None,
        1 => Some(s.below(6)),
        2 => Some(s.range(6, 75)),
        _ => Some(*s.pick(&[usize::MAX, usize::MAX - 1, 255, 256, 1 << 32])),
    }
}

pub fn opts_text(o: &toon::Options) -> String {
    format!("delim={:?} indent={} strict={} fold={:?}/{:?} expand={:?}", o.delimiter, o.indent, o.strict, o.key_folding, o.flatten_depth, o.expand_paths)
}

/// Labels every property over values shares.
pub fn label_value(v: &Value, c: &mut crate::engine::Case) {
    let d = depth_of(v);
    c.label(match d {
        0 => "depth:0",
        1 => "depth:1",
        2 => "depth:2",
        3..=4 => "depth:3-4",
        _ => "depth:5+",
    });
    fn walk(v: &Value, in_list: bool, f: &mut dyn FnMut(&'static str)) {
        match v {
            Value::Array(a) => {
                if a.is_empty() {
                    f(if in_list { "empty-array-in-array" } else { "empty-array" });
                } else if crate::refmodel::table_columns(a).is_some() {
                    f(if in_list { "uniform-objects-in-array" } else { "table" });
                } else if a.iter().all(crate::refmodel::is_prim) {
                    f("inline-array");
                } else {
                    f("list");
                }
                if a.len() > 9 {
                    f("len>9");
                }
                for x in a {
                    walk(x, true, f);
                }
            }
            Value::Object(m) => {
                if m.is_empty() {
                    f(if in_list { "empty-object-in-array" } else { "empty-object" });
                } else if in_list {
                    match m.values().next().unwrap() {
                        Value::Array(_) => f("hyphen-array"),
                        Value::Object(_) => f("hyphen-object"),
                        _ => {}
                    }
                }
                for x in m.values() {
                    walk(x, false, f);
                }
            }
            _ => {}
        }
    }
    let mut seen: Vec<&'static str> = Vec::new();
    walk(v, false, &mut |l| {
        if !seen.contains(&l) {
            seen.push(l);
        }
    });
    c.labels.extend(seen);
}
